From 8ad4bc98f7a2b994721ff99e0360ce06b597ec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:56 +0000
Subject: [PATCH 01/45] fix: accept packed and split packed records for
 repeated scalar fields

Parsers must accept packed data for a field declared unpacked, and must
concatenate the elements of a packed field that is split into multiple
records. The former was rejected, the latter kept only the last record.
---
 internal/desc/desc.go           |  2 +-
 internal/desc/funcs.go          |  7 ++++---
 internal/prutal/decoder.go      |  5 +----
 internal/wire/decoder_packed.go | 36 ++++++++++++++++++++++++---------
 4 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 8331c3f..12ef9c2 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -192,7 +192,7 @@ type FieldDesc struct {
 
 	SizeMapFunc wire.SizeMapFunc
 
-	// only for packed types, and some map types
+	// only for packed records of repeated scalar types, and some map types
 	DecodeFunc func(b []byte, p unsafe.Pointer) error
 
 	T *Type
diff --git a/internal/desc/funcs.go b/internal/desc/funcs.go
index e824be2..9ad97cc 100644
--- a/internal/desc/funcs.go
+++ b/internal/desc/funcs.go
@@ -65,11 +65,12 @@ func getDecodeFunc(f *FieldDesc) wire.DecodeFunc {
 		// Returns nil for maps with complex types (e.g., struct values, nested maps)
 		return getMapDecodeFunc(f)
 	}
-	if f.Packed {
-		// Returns optimized decoder for packed repeated scalar fields
+	if f.IsList {
+		// Returns optimized decoder for packed records of repeated scalar fields.
+		// It doesn't depend on f.Packed: parsers must accept both encodings.
 		return getPackedDecodeFunc(f)
 	}
-	// Non-packed, non-map fields use generic decoding
+	// Non-repeated fields use generic decoding
 	return nil
 }
 
diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index eeb5e53..10e0ec2 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -148,11 +148,8 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 
 		if f.Repeated && t.IsSlice {
 			t = t.V
-			if typ == wire.TypeBytes && f.Packed {
+			if typ == wire.TypeBytes && f.DecodeFunc != nil {
 				// packed repeated fields, only scalar types except string or bytes
-				if f.DecodeFunc == nil {
-					panic(fmt.Sprintf("BUG? unknown packed field %q (#%d)", f.Name, f.ID))
-				}
 				packed, n := protowire.ConsumeBytes(b[i:])
 				if n < 0 {
 					return i, protowire.ParseError(n)
diff --git a/internal/wire/decoder_packed.go b/internal/wire/decoder_packed.go
index 49b399b..fa8e0d5 100644
--- a/internal/wire/decoder_packed.go
+++ b/internal/wire/decoder_packed.go
@@ -34,6 +34,24 @@ func init() {
 	packedDecoderFuncs[CoderBool] = DecodePackedBool
 }
 
+// growPacked returns the slice h points to with room for n more elements.
+//
+// The elements of a packed field may be split into multiple records,
+// so the decoders append to the existing elements.
+func growPacked[T any](h unsafe.Pointer, n int) []T {
+	vv := *(*[]T)(h)
+	if vv != nil && cap(vv)-len(vv) >= n {
+		return vv
+	}
+	c := len(vv) + n
+	if len(vv) > 0 && c < 2*cap(vv) {
+		c = 2 * cap(vv)
+	}
+	ret := make([]T, len(vv), c)
+	copy(ret, vv)
+	return ret
+}
+
 func DecodePackedVarintU64(b []byte, h unsafe.Pointer) error {
 	sz := 0
 	for _, v := range b {
@@ -41,7 +59,7 @@ func DecodePackedVarintU64(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]uint64, 0, sz)
+	vv := growPacked[uint64](h, sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -71,7 +89,7 @@ func DecodePackedVarintU32(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]uint32, 0, sz)
+	vv := growPacked[uint32](h, sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -101,7 +119,7 @@ func DecodePackedZigZag64(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]int64, 0, sz)
+	vv := growPacked[int64](h, sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -131,7 +149,7 @@ func DecodePackedZigZag32(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]int32, 0, sz)
+	vv := growPacked[int32](h, sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -158,7 +176,7 @@ func DecodePackedFixed64(b []byte, h unsafe.Pointer) error {
 	if len(b)&7 != 0 {
 		return io.ErrUnexpectedEOF
 	}
-	vv := make([]uint64, 0, len(b)/8)
+	vv := growPacked[uint64](h, len(b)/8)
 	for len(b) > 0 {
 		_ = b[7]
 		vv = append(vv,
@@ -174,7 +192,7 @@ func DecodePackedFixed32(b []byte, h unsafe.Pointer) error {
 	if len(b)&3 != 0 {
 		return io.ErrUnexpectedEOF
 	}
-	vv := make([]uint32, 0, len(b)/4)
+	vv := growPacked[uint32](h, len(b)/4)
 	for len(b) > 0 {
 		_ = b[3]
 		vv = append(vv, uint32(b[0])<<0|uint32(b[1])<<8|uint32(b[2])<<16|uint32(b[3])<<24)
@@ -185,9 +203,9 @@ func DecodePackedFixed32(b []byte, h unsafe.Pointer) error {
 }
 
 func DecodePackedBool(b []byte, h unsafe.Pointer) error {
-	vv := make([]bool, len(b))
-	for i, c := range b {
-		vv[i] = c > 0
+	vv := growPacked[bool](h, len(b))
+	for _, c := range b {
+		vv = append(vv, c > 0)
 	}
 	*(*[]bool)(h) = vv
 	return nil
-- 
2.43.0


From 1e229a319d3950dc643d0964136409254dd7621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:09 +0000
Subject: [PATCH 02/45] fix: decode every non-zero varint of a bool as true

Only the lowest bit was used for plain fields and map entries, and packed
or map bools assumed a single byte per value.
---
 internal/prutal/decoder.go      | 12 ++++++------
 internal/wire/decoder_map.go    | 14 ++------------
 internal/wire/decoder_packed.go | 20 +++++++++++++++++---
 3 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 10e0ec2..98fa6ea 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -196,8 +196,8 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 				*(*int64)(p) = int64(u64)
 			case reflect.Uint64:
 				*(*uint64)(p) = u64
-			case reflect.Bool: // 1 for true, 0 for false
-				*(*byte)(p) = byte(u64 & 0x1)
+			case reflect.Bool:
+				*(*bool)(p) = u64 != 0
 			}
 			i += n
 
@@ -339,8 +339,8 @@ func (d *Decoder) DecodeMapKey(b []byte, p unsafe.Pointer, f *desc.FieldDesc) (i
 			*(*int64)(p) = int64(u64)
 		case reflect.Uint64:
 			*(*uint64)(p) = u64
-		case reflect.Bool: // 1 for true, 0 for false
-			*(*byte)(p) = byte(u64 & 0x1)
+		case reflect.Bool:
+			*(*bool)(p) = u64 != 0
 		}
 		i += n
 
@@ -445,8 +445,8 @@ func (d *Decoder) DecodeMapValue(b []byte, p unsafe.Pointer, f *desc.FieldDesc,
 			*(*int64)(p) = int64(u64)
 		case reflect.Uint64:
 			*(*uint64)(p) = u64
-		case reflect.Bool: // 1 for true, 0 for false
-			*(*byte)(p) = byte(u64 & 0x1)
+		case reflect.Bool:
+			*(*bool)(p) = u64 != 0
 		}
 		i += n
 
diff --git a/internal/wire/decoder_map.go b/internal/wire/decoder_map.go
index fd5dff3..8bf7891 100644
--- a/internal/wire/decoder_map.go
+++ b/internal/wire/decoder_map.go
@@ -17,7 +17,6 @@
 package wire
 
 import (
-	"io"
 	"unsafe"
 
 	"github.com/cloudwego/prutal/internal/protowire"
@@ -167,17 +166,8 @@ func decodeMap_Fixed64(b []byte, num int32) (v uint64, n int, err error) {
 }
 
 func decodeMap_Bool(b []byte, num int32) (bool, int, error) {
-	if len(b) < 2 {
-		return false, 0, io.ErrUnexpectedEOF
-	}
-	fn, typ := ConsumeKVTag(b)
-	if fn != num {
-		return false, 0, newFieldNumErr(fn, num)
-	}
-	if typ != TypeVarint {
-		return false, 0, newTypeNotMatchErr(typ, TypeVarint)
-	}
-	return b[1] != 0, 2, nil
+	v, n, err := decodeMap_Varint(b, num)
+	return v != 0, n, err
 }
 
 func DecodeMap_VarintU32_VarintU32(b []byte, mp unsafe.Pointer) error {
diff --git a/internal/wire/decoder_packed.go b/internal/wire/decoder_packed.go
index fa8e0d5..28b7f57 100644
--- a/internal/wire/decoder_packed.go
+++ b/internal/wire/decoder_packed.go
@@ -203,9 +203,23 @@ func DecodePackedFixed32(b []byte, h unsafe.Pointer) error {
 }
 
 func DecodePackedBool(b []byte, h unsafe.Pointer) error {
-	vv := growPacked[bool](h, len(b))
-	for _, c := range b {
-		vv = append(vv, c > 0)
+	sz := 0
+	for _, v := range b {
+		if v < 0x80 {
+			sz++
+		}
+	}
+	vv := growPacked[bool](h, sz)
+	for len(b) > 0 {
+		v, n := uint64(b[0]), 1
+		if v >= 0x80 {
+			v, n = protowire.ConsumeVarint(b)
+		}
+		if n < 0 {
+			return io.ErrUnexpectedEOF
+		}
+		vv = append(vv, v != 0)
+		b = b[n:]
 	}
 	*(*[]bool)(h) = vv
 	return nil
-- 
2.43.0


From 80ed126d725861e7564cce7b550dbeec57a62905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:22 +0000
Subject: [PATCH 03/45] fix: truncate sint32 varints to 32 bits before zigzag
 decoding

---
 internal/protowire/wire_ext.go  |  6 ++++++
 internal/prutal/decoder.go      | 15 ++++++++++++---
 internal/wire/decoder_map.go    | 26 +++++++++++++-------------
 internal/wire/decoder_packed.go |  2 +-
 4 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/internal/protowire/wire_ext.go b/internal/protowire/wire_ext.go
index 61a098e..c19f93b 100644
--- a/internal/protowire/wire_ext.go
+++ b/internal/protowire/wire_ext.go
@@ -36,3 +36,9 @@ func (t Type) String() string {
 		return "t-" + strconv.Itoa(int(t))
 	}
 }
+
+// DecodeZigZag32 decodes a zigzag-encoded sint32.
+// Like any other 32-bit varint, v is truncated to 32 bits before decoding.
+func DecodeZigZag32(v uint64) int32 {
+	return int32(DecodeZigZag(uint64(uint32(v))))
+}
diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 98fa6ea..a10059d 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -184,7 +184,10 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 			if n < 0 {
 				return 0, protowire.ParseError(n)
 			}
-			if tag == desc.TypeZigZag32 || tag == desc.TypeZigZag64 {
+			switch tag {
+			case desc.TypeZigZag32:
+				u64 = uint64(protowire.DecodeZigZag32(u64))
+			case desc.TypeZigZag64:
 				u64 = uint64(protowire.DecodeZigZag(u64))
 			}
 			switch t.Kind {
@@ -327,7 +330,10 @@ func (d *Decoder) DecodeMapKey(b []byte, p unsafe.Pointer, f *desc.FieldDesc) (i
 		if n < 0 {
 			return 0, protowire.ParseError(n)
 		}
-		if tag == desc.TypeZigZag32 || tag == desc.TypeZigZag64 {
+		switch tag {
+		case desc.TypeZigZag32:
+			u64 = uint64(protowire.DecodeZigZag32(u64))
+		case desc.TypeZigZag64:
 			u64 = uint64(protowire.DecodeZigZag(u64))
 		}
 		switch t.Kind {
@@ -433,7 +439,10 @@ func (d *Decoder) DecodeMapValue(b []byte, p unsafe.Pointer, f *desc.FieldDesc,
 		if n < 0 {
 			return 0, protowire.ParseError(n)
 		}
-		if tag == desc.TypeZigZag32 || tag == desc.TypeZigZag64 {
+		switch tag {
+		case desc.TypeZigZag32:
+			u64 = uint64(protowire.DecodeZigZag32(u64))
+		case desc.TypeZigZag64:
 			u64 = uint64(protowire.DecodeZigZag(u64))
 		}
 		switch t.Kind {
diff --git a/internal/wire/decoder_map.go b/internal/wire/decoder_map.go
index 8bf7891..5e0465e 100644
--- a/internal/wire/decoder_map.go
+++ b/internal/wire/decoder_map.go
@@ -226,7 +226,7 @@ func DecodeMap_VarintU32_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint32, int32](mp)
-	(*m)[uint32(k)] = int32(protowire.DecodeZigZag(v))
+	(*m)[uint32(k)] = protowire.DecodeZigZag32(v)
 	return nil
 }
 
@@ -331,7 +331,7 @@ func DecodeMap_VarintU64_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint64, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = protowire.DecodeZigZag32(v)
 	return nil
 }
 
@@ -436,7 +436,7 @@ func DecodeMap_ZigZag64_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int64, int32](mp)
-	(*m)[protowire.DecodeZigZag(k)] = int32(protowire.DecodeZigZag(v))
+	(*m)[protowire.DecodeZigZag(k)] = protowire.DecodeZigZag32(v)
 	return nil
 }
 
@@ -496,7 +496,7 @@ func DecodeMap_ZigZag32_VarintU64(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint64](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[protowire.DecodeZigZag32(k)] = v
 	return nil
 }
 
@@ -511,7 +511,7 @@ func DecodeMap_ZigZag32_VarintU32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint32](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = uint32(v)
+	(*m)[protowire.DecodeZigZag32(k)] = uint32(v)
 	return nil
 }
 
@@ -526,7 +526,7 @@ func DecodeMap_ZigZag32_ZigZag64(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, int64](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = protowire.DecodeZigZag(v)
+	(*m)[protowire.DecodeZigZag32(k)] = protowire.DecodeZigZag(v)
 	return nil
 }
 
@@ -541,7 +541,7 @@ func DecodeMap_ZigZag32_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, int32](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = int32(protowire.DecodeZigZag(v))
+	(*m)[protowire.DecodeZigZag32(k)] = int32(protowire.DecodeZigZag(v))
 	return nil
 }
 
@@ -556,7 +556,7 @@ func DecodeMap_ZigZag32_Fixed64(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint64](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[protowire.DecodeZigZag32(k)] = v
 	return nil
 }
 
@@ -571,7 +571,7 @@ func DecodeMap_ZigZag32_Fixed32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint32](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[protowire.DecodeZigZag32(k)] = v
 	return nil
 }
 
@@ -586,7 +586,7 @@ func DecodeMap_ZigZag32_Bool(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, bool](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[protowire.DecodeZigZag32(k)] = v
 	return nil
 }
 
@@ -646,7 +646,7 @@ func DecodeMap_Fixed64_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint64, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = protowire.DecodeZigZag32(v)
 	return nil
 }
 
@@ -752,7 +752,7 @@ func DecodeMap_Fixed32_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint32, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = protowire.DecodeZigZag32(v)
 	return nil
 }
 
@@ -858,7 +858,7 @@ func DecodeMap_Bool_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[bool, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = protowire.DecodeZigZag32(v)
 	return nil
 }
 
diff --git a/internal/wire/decoder_packed.go b/internal/wire/decoder_packed.go
index 28b7f57..59abe36 100644
--- a/internal/wire/decoder_packed.go
+++ b/internal/wire/decoder_packed.go
@@ -165,7 +165,7 @@ func DecodePackedZigZag32(b []byte, h unsafe.Pointer) error {
 		if n < 0 {
 			return io.ErrUnexpectedEOF
 		}
-		vv = append(vv, int32(protowire.DecodeZigZag(v)))
+		vv = append(vv, protowire.DecodeZigZag32(v))
 		b = b[n:]
 	}
 	*(*[]int32)(h) = vv
-- 
2.43.0


From b07193bffa9a607380ee8fb7e068e4bf7ffbf428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 04/45] fix: encode oneof members which are set to the zero
 value

The selected member of a oneof is always present on the wire, but
Marshal and Size skipped it if the value was zero or empty.
---
 internal/prutal/encoder.go | 3 +++
 internal/prutal/sizer.go   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/prutal/encoder.go b/internal/prutal/encoder.go
index 868c131..2d236f3 100644
--- a/internal/prutal/encoder.go
+++ b/internal/prutal/encoder.go
@@ -69,6 +69,9 @@ func (e *Encoder) AppendStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		// this also checks pointer types
 		skipzero := false
 		switch {
+		case f.IsOneof():
+			// always present even if it's zero value, except nil scalar pointer.
+			skipzero = t.IsPointer && t.V.Kind != reflect.Struct && *(*unsafe.Pointer)(p) == nil
 		case t.Size == 8: // int64, uint64, float64 or pointer on amd64
 			skipzero = *(*uint64)(p) == 0
 		case t.Size == 4: // int32, uint32, float32 or pointer on 386
diff --git a/internal/prutal/sizer.go b/internal/prutal/sizer.go
index a185d90..c4a0da3 100644
--- a/internal/prutal/sizer.go
+++ b/internal/prutal/sizer.go
@@ -51,6 +51,9 @@ func SizeStruct(base unsafe.Pointer, s *desc.StructDesc, maxdepth int) (int, err
 		// skip zero values — same logic as encoder
 		skipzero := false
 		switch {
+		case f.IsOneof():
+			// always present even if it's zero value, except nil scalar pointer.
+			skipzero = t.IsPointer && t.V.Kind != reflect.Struct && *(*unsafe.Pointer)(p) == nil
 		case t.Size == 8:
 			skipzero = *(*uint64)(p) == 0
 		case t.Size == 4:
-- 
2.43.0


From cca9d9e86a2aff23150a4c7f9978b8a7e42fedb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:56 +0000
Subject: [PATCH 05/45] fix: encode empty but set bytes fields with explicit
 presence

An empty non-nil required or proto3 optional bytes field is set, and
must be encoded.
---
 internal/desc/desc.go      | 1 +
 internal/desc/tag.go       | 3 +++
 internal/prutal/encoder.go | 3 +++
 internal/prutal/sizer.go   | 3 +++
 4 files changed, 10 insertions(+)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 12ef9c2..90053ee 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -155,6 +155,7 @@ type FieldDesc struct {
 	Offset   uintptr
 	Tag      reflect.StructTag
 	Required bool
+	Presence bool // the tag shows that the field has explicit presence
 	Repeated bool
 	Packed   bool
 	IsList   bool
diff --git a/internal/desc/tag.go b/internal/desc/tag.go
index 9d94720..cb07382 100644
--- a/internal/desc/tag.go
+++ b/internal/desc/tag.go
@@ -39,6 +39,9 @@ func (p *FieldDesc) parseStructTag(tag string) error {
 			// not in use
 		case s == "req":
 			p.Required = true // proto2
+			p.Presence = true
+		case s == "oneof":
+			p.Presence = true // oneof or proto3 optional
 		case s == "rep":
 			p.Repeated = true
 		case s == "varint":
diff --git a/internal/prutal/encoder.go b/internal/prutal/encoder.go
index 2d236f3..af54ca0 100644
--- a/internal/prutal/encoder.go
+++ b/internal/prutal/encoder.go
@@ -80,6 +80,9 @@ func (e *Encoder) AppendStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 			skipzero = *(*uint8)(p) == 0
 		case t.SliceLike: // for slice or string, both can use StringHeader
 			skipzero = ((*hack.StringHeader)(p)).Len == 0
+			if skipzero && f.Presence && t.Kind == desc.KindBytes {
+				skipzero = ((*hack.SliceHeader)(p)).Data == nil // empty but set
+			}
 		}
 		if skipzero {
 			continue
diff --git a/internal/prutal/sizer.go b/internal/prutal/sizer.go
index c4a0da3..18ed181 100644
--- a/internal/prutal/sizer.go
+++ b/internal/prutal/sizer.go
@@ -62,6 +62,9 @@ func SizeStruct(base unsafe.Pointer, s *desc.StructDesc, maxdepth int) (int, err
 			skipzero = *(*uint8)(p) == 0
 		case t.SliceLike:
 			skipzero = ((*hack.StringHeader)(p)).Len == 0
+			if skipzero && f.Presence && t.Kind == desc.KindBytes {
+				skipzero = ((*hack.SliceHeader)(p)).Data == nil // empty but set
+			}
 		}
 		if skipzero {
 			continue
-- 
2.43.0


From fa443ca80ee3591c3bbece50d33454d424144696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:58 +0000
Subject: [PATCH 06/45] fix: ignore the content of default values in struct
 tags

The default value of a proto2 string may contain commas, its parts were
treated as field options like the field number or packed.
---
 internal/desc/tag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/desc/tag.go b/internal/desc/tag.go
index cb07382..72ea633 100644
--- a/internal/desc/tag.go
+++ b/internal/desc/tag.go
@@ -28,6 +28,10 @@ import (
 var errGroupNotSupported = errors.New("group encoding not supported")
 
 func (p *FieldDesc) parseStructTag(tag string) error {
+	// `def=` is always the last one, and the default value may contain commas
+	if i := strings.Index(tag, ",def="); i >= 0 {
+		tag = tag[:i]
+	}
 	ss := strings.Split(tag, ",")
 	for _, s := range ss {
 		s = strings.TrimSpace(s)
-- 
2.43.0


From 363c2a064caeaa29cda768f66b31a18f3240dfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:07 +0000
Subject: [PATCH 07/45] fix: count map values as one level when checking
 recursion depth

Unmarshal counted a message in a map twice, so that it rejected
messages which are accepted by Marshal and Size.
---
 internal/prutal/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index a10059d..e2321a5 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -282,7 +282,7 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 					if tmv == nil {
 						tmv = f.T.MapTmpVarsPool.Get().(*desc.TmpMapVars)
 					}
-					if _, err := d.DecodeMapPair(fb, p, f, tmv, maxdepth-1); err != nil {
+					if _, err := d.DecodeMapPair(fb, p, f, tmv, maxdepth); err != nil {
 						return i, err
 					}
 				}
-- 
2.43.0


From 7540ad6fdfa6123c29844395c2c3a10ff8d39365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 08/45] fix: accept map entries with any combination of key and
 value

Key and value of a map entry are normal fields: they may be omitted if
they're zero values, may come in any order, and unknown fields are
skipped. Unmarshal failed with such entries, and it also ignored malformed
bytes after the value.
---
 internal/desc/type.go        | 14 ++------
 internal/prutal/decoder.go   | 67 +++++++++++++++++++-----------------
 internal/wire/decoder_map.go |  9 +++++
 internal/wire/errors.go      |  8 ++++-
 4 files changed, 55 insertions(+), 43 deletions(-)

diff --git a/internal/desc/type.go b/internal/desc/type.go
index 368e514..96ae376 100644
--- a/internal/desc/type.go
+++ b/internal/desc/type.go
@@ -177,11 +177,6 @@ type TmpMapVars struct {
 	v  reflect.Value  // t.V.T
 	vp unsafe.Pointer // *t.V.T
 
-	// zero value of v,
-	// only used when non-pointer struct as map val
-	// we need to zero the tmp var before using it
-	z reflect.Value
-
 	Update func(p *TmpMapVars, mp unsafe.Pointer) // see newTmpMapVarsFunc
 
 }
@@ -192,10 +187,10 @@ func (p *TmpMapVars) MapWithPtr(x unsafe.Pointer) reflect.Value {
 func (p *TmpMapVars) KeyPointer() unsafe.Pointer { return p.kp }
 func (p *TmpMapVars) ValPointer() unsafe.Pointer { return p.vp }
 
+// Reset sets tmp vars to zero values
 func (p *TmpMapVars) Reset() {
-	if p.z.IsValid() {
-		p.v.Set(p.z)
-	}
+	p.k.SetZero()
+	p.v.SetZero()
 }
 
 // for (*sync.Pool).New
@@ -250,9 +245,6 @@ func newTmpMapVarsFunc(rt reflect.Type) func() any {
 		p.v = reflect.New(et)
 		p.vp = p.v.UnsafePointer()
 		p.v = p.v.Elem()
-		if et.Kind() == reflect.Struct {
-			p.z = reflect.Zero(et)
-		}
 		p.Update = updateFunc
 		return p
 	}
diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index e2321a5..81f940a 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -17,7 +17,6 @@
 package prutal
 
 import (
-	"fmt"
 	"reflect"
 	"sync"
 	"unsafe"
@@ -268,13 +267,11 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 				// Fast path: use specialized decoders from wire package for primitive key-value pairs
 				// These are pre-generated functions optimized for specific map types (e.g., map[uint32]int64)
 				// Available for numeric/bool keys with numeric/bool values only
-				if f.DecodeFunc != nil {
-					if err := f.DecodeFunc(fb, p); err != nil {
-						return i, err
-					}
-				} else {
+				// and for entries with exactly one key followed by one value
+				if f.DecodeFunc == nil || f.DecodeFunc(fb, p) != nil {
 					// Fallback: use generic reflection-based map decoding
 					// Used for:
+					// - Entries without key or value, or with fields in unusual order
 					// - String keys (most common case: map[string]T)
 					// - Complex values: structs/messages (map[K]*MyMessage)
 					// - Bytes values (map[K][]byte)
@@ -310,13 +307,8 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 // DecodeMapKey ...
 // keyType = "int32" | "int64" | "uint32" | "uint64" | "sint32" | "sint64" |
 // "fixed32" | "fixed64" | "sfixed32" | "sfixed64" | "bool" | "string"
-func (d *Decoder) DecodeMapKey(b []byte, p unsafe.Pointer, f *desc.FieldDesc) (int, error) {
-	num, typ := wire.ConsumeKVTag(b)
-	if num != 1 { // key num
-		return 0, fmt.Errorf("key field num not match, got %d expect 1", num)
-	}
-	i := 1 // one byte for map key tag
-
+func (d *Decoder) DecodeMapKey(b []byte, typ wire.Type, p unsafe.Pointer, f *desc.FieldDesc) (int, error) {
+	i := 0
 	t := f.T.K
 	tag := f.KeyType
 
@@ -414,18 +406,14 @@ func (d *Decoder) DecodeMapKey(b []byte, p unsafe.Pointer, f *desc.FieldDesc) (i
 
 // DecodeMapValue ...
 // like DecodeMapKey plus "bytes" | messageType | enumType
-func (d *Decoder) DecodeMapValue(b []byte, p unsafe.Pointer, f *desc.FieldDesc, maxdepth int) (int, error) {
-	num, typ := wire.ConsumeKVTag(b)
-	if num != 2 { // val num
-		return 0, fmt.Errorf("val field num not match, got %d expect 2", num)
-	}
-	i := 1 // one byte for map value tag
-
+//
+// if the value type is a pointer, p must point to the allocated value.
+func (d *Decoder) DecodeMapValue(b []byte, typ wire.Type, p unsafe.Pointer, f *desc.FieldDesc, maxdepth int) (int, error) {
+	i := 0
 	t := f.T.V
 	tag := f.ValType
 
 	if t.IsPointer {
-		p = d.mallocIfPointer(p, t)
 		t = t.V
 	}
 
@@ -540,25 +528,42 @@ func (d *Decoder) DecodeMapPair(b []byte, p unsafe.Pointer, f *desc.FieldDesc, t
 
 	// maps are encoded exactly like a repeated message field:
 	// as a sequence of LEN-typed records, with two fields each.
-	// #1 for key and #2 for value.
+	// #1 for key and #2 for value, both are optional and in any order.
 	var m reflect.Value
 	if *(*unsafe.Pointer)(p) == nil {
 		m = reflect.MakeMap(f.T.T)
 		*(*unsafe.Pointer)(p) = m.UnsafePointer()
 	}
 
+	// key and value are zero values (see tmp.Reset()) if they're missing
+	kp := tmp.KeyPointer()
+	vp := d.mallocIfPointer(tmp.ValPointer(), f.T.V)
+
 	i := 0
-	n, err := d.DecodeMapKey(b, tmp.KeyPointer(), f)
-	if err != nil {
-		return 0, err
-	}
-	i += n
+	for i < len(b) {
+		num, typ, n := protowire.ConsumeTag(b[i:])
+		if n < 0 {
+			return i, protowire.ParseError(n)
+		}
+		i += n
 
-	n, err = d.DecodeMapValue(b[i:], tmp.ValPointer(), f, maxdepth)
-	if err != nil {
-		return i, err
+		var err error
+		switch num {
+		case 1:
+			n, err = d.DecodeMapKey(b[i:], typ, kp, f)
+		case 2:
+			n, err = d.DecodeMapValue(b[i:], typ, vp, f, maxdepth)
+		default: // unknown field, skip
+			n = protowire.ConsumeFieldValue(num, typ, b[i:])
+			if n < 0 {
+				err = protowire.ParseError(n)
+			}
+		}
+		if err != nil {
+			return i, err
+		}
+		i += n
 	}
-	i += n
 
 	tmp.Update(tmp, p)
 	return i, nil
diff --git a/internal/wire/decoder_map.go b/internal/wire/decoder_map.go
index 5e0465e..1d7de93 100644
--- a/internal/wire/decoder_map.go
+++ b/internal/wire/decoder_map.go
@@ -127,6 +127,9 @@ func decodeMap_Varint(b []byte, num int32) (v uint64, n int, err error) {
 	if n < 0 {
 		return 0, 0, protowire.ParseError(n)
 	}
+	if num == 2 && n != len(b) {
+		return 0, 0, errMapEntryNotEnd
+	}
 	n++ // +1 for the tag byte
 	return
 }
@@ -144,6 +147,9 @@ func decodeMap_Fixed32(b []byte, num int32) (v uint32, n int, err error) {
 	if n < 0 {
 		return 0, 0, protowire.ParseError(n)
 	}
+	if num == 2 && n != len(b) {
+		return 0, 0, errMapEntryNotEnd
+	}
 	n++ // +1 for the tag byte
 	return
 }
@@ -161,6 +167,9 @@ func decodeMap_Fixed64(b []byte, num int32) (v uint64, n int, err error) {
 	if n < 0 {
 		return 0, 0, protowire.ParseError(n)
 	}
+	if num == 2 && n != len(b) {
+		return 0, 0, errMapEntryNotEnd
+	}
 	n++ // +1 for the tag byte
 	return
 }
diff --git a/internal/wire/errors.go b/internal/wire/errors.go
index 1702250..d3ac51f 100644
--- a/internal/wire/errors.go
+++ b/internal/wire/errors.go
@@ -16,7 +16,13 @@
 
 package wire
 
-import "fmt"
+import (
+	"errors"
+	"fmt"
+)
+
+// errMapEntryNotEnd is returned if there're more fields after the value of a map entry
+var errMapEntryNotEnd = errors.New("map entry not ends with value")
 
 func newFieldNumErr(got, expect int32) error {
 	return fmt.Errorf("field num not match: got %d expect %d", got, expect)
-- 
2.43.0


From dd1d689cdf12da4f0e4f65e9b5ab102cf9179494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 09/45] fix: reject field types which can't be encoded or
 decoded safely

Lists, maps or pointers of them hidden behind a pointer, a list, a map or
a non-repeated field passed validation by their flattened kind, and memory
was interpreted as another type. Float map keys are invalid as well: they
were stored by integer hash.
---
 internal/desc/desc.go  | 34 ++++++++++++++++++++++++----------
 internal/desc/utils.go |  6 +++---
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 90053ee..50ecfd3 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -280,19 +280,22 @@ func (f *FieldDesc) checkTypeMatch() error {
 			return fmt.Errorf("repeated field is not slice or map")
 		}
 		if t.IsSlice {
-			// The element type (after at most one pointer indirection) must be a
-			// scalar/struct, not another slice or map. Otherwise RealKind would
-			// flatten e.g. [][]int32 to int32 and pass validation, and the decoder
-			// would write a scalar slice header into a slice-of-slice element,
-			// causing type confusion.
-			el := t.V
-			if el.IsPointer {
-				el = el.V
-			}
-			if el.IsSlice || el.Kind == reflect.Map {
+			// The element type must be a scalar, struct or pointer to struct, not
+			// another slice or map. Otherwise RealKind would flatten e.g. [][]int32
+			// to int32 and pass validation, and the decoder would write a scalar
+			// slice header into a slice-of-slice element, causing type confusion.
+			if !isValueType(t.V) {
 				return fmt.Errorf("unsupported nested repeated field type %s", t.T)
 			}
 		}
+	} else if el := t; el.Kind != reflect.Map {
+		// Same reason as above, e.g. RealKind of []int32 and *[]int32 is int32.
+		if el.IsPointer {
+			el = el.V
+		}
+		if el.IsSlice || el.Kind == reflect.Map {
+			return fmt.Errorf("field type %s must be repeated", t.T)
+		}
 	}
 
 	if err := IsFieldTypeMatchReflectKind(f.TagType, t.RealKind()); err != nil {
@@ -302,6 +305,9 @@ func (f *FieldDesc) checkTypeMatch() error {
 		if !f.Repeated {
 			return errors.New("must be repeated field for map")
 		}
+		if t.K.IsPointer || !isValueType(t.V) {
+			return fmt.Errorf("unsupported map field type %s", t.T)
+		}
 		if err := IsFieldKeyTypeMatchReflectKind(f.KeyType, t.K.RealKind()); err != nil {
 			return err
 		}
@@ -312,6 +318,14 @@ func (f *FieldDesc) checkTypeMatch() error {
 	return nil
 }
 
+// isValueType reports whether t can be the type of list elements or map values
+func isValueType(t *Type) bool {
+	if t.IsPointer {
+		return t.V.Kind == reflect.Struct
+	}
+	return !t.IsSlice && t.Kind != reflect.Map
+}
+
 var cachedStructs = map[reflect.Type]*StructDesc{}
 
 func parseStruct(rt reflect.Type) (s *StructDesc, err error) {
diff --git a/internal/desc/utils.go b/internal/desc/utils.go
index 603d419..a63c9f4 100644
--- a/internal/desc/utils.go
+++ b/internal/desc/utils.go
@@ -23,7 +23,7 @@ import (
 )
 
 // IsFieldKeyTypeMatchReflectKind returns nil if t match k for map key type
-// It's same as IsFieldTypeMatchReflectKind except k can't be `[]byte` or `struct`
+// It's same as IsFieldTypeMatchReflectKind except k can't be `[]byte`, `struct` or float
 func IsFieldKeyTypeMatchReflectKind(t TagType, k reflect.Kind) error {
 	ok := false
 	switch t {
@@ -36,9 +36,9 @@ func IsFieldKeyTypeMatchReflectKind(t TagType, k reflect.Kind) error {
 	case TypeZigZag64:
 		ok = k == reflect.Int64
 	case TypeFixed32:
-		ok = k == reflect.Int32 || k == reflect.Uint32 || k == reflect.Float32
+		ok = k == reflect.Int32 || k == reflect.Uint32
 	case TypeFixed64:
-		ok = k == reflect.Int64 || k == reflect.Uint64 || k == reflect.Float64
+		ok = k == reflect.Int64 || k == reflect.Uint64
 	case TypeBytes:
 		ok = k == reflect.String
 	}
-- 
2.43.0


From bc062625ab10e6dda93399182360fc044bdd2b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 10/45] fix: drop types parsed along with a failed one from
 cache

Once a type was rejected, other types parsed with it could be used later
as if they're valid, with the desc of the rejected one being incomplete.
---
 internal/desc/desc.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 50ecfd3..7d1727a 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -64,6 +64,16 @@ func GetOrParse(rv reflect.Value) (*StructDesc, error) {
 		return ret, nil
 	}
 
+	ok := false
+	defer func() {
+		if !ok {
+			// Types parsed along with the failed one may refer to its
+			// incomplete desc, they must be parsed again if needed.
+			cachedTypes = map[reflect.Type]*Type{}
+			cachedStructs = map[reflect.Type]*StructDesc{}
+		}
+	}()
+
 	t, err := parseType(rt)
 	if err != nil {
 		return nil, err
@@ -76,6 +86,7 @@ func GetOrParse(rv reflect.Value) (*StructDesc, error) {
 		return nil, err
 	}
 	cache.Set(typ, s)
+	ok = true
 	return s, nil
 }
 
-- 
2.43.0


From 092ef275b60a20cf19105262b5e3044e041c7c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 11/45] fix: reject invalid field numbers in struct tags

---
 internal/desc/tag.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/desc/tag.go b/internal/desc/tag.go
index 72ea633..ed4e1cb 100644
--- a/internal/desc/tag.go
+++ b/internal/desc/tag.go
@@ -25,6 +25,9 @@ import (
 	"github.com/cloudwego/prutal/internal/wire"
 )
 
+// maxFieldNumber is the max field number allowed by protobuf
+const maxFieldNumber = 1<<29 - 1
+
 var errGroupNotSupported = errors.New("group encoding not supported")
 
 func (p *FieldDesc) parseStructTag(tag string) error {
@@ -69,9 +72,15 @@ func (p *FieldDesc) parseStructTag(tag string) error {
 			if err != nil {
 				return err
 			}
+			if n > maxFieldNumber {
+				return fmt.Errorf("invalid field number %d", n)
+			}
 			p.ID = int32(n)
 		}
 	}
+	if p.ID < 1 {
+		return errors.New("field number missing or zero")
+	}
 	if p.TagType == 0 {
 		return errors.New("unknown tag type")
 	}
-- 
2.43.0


From e33a1241cd4ab84ff2cf42f5e51d295033085998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 12/45] fix: reject field numbers out of range in wire data

---
 internal/prutal/decoder.go | 6 ++++++
 internal/prutal/errors.go  | 1 +
 2 files changed, 7 insertions(+)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 81f940a..efff536 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -119,6 +119,9 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 			f = s.GetField(int32(num))
 			if f == nil {
 				// field not found, skip bytes
+				if !num.IsValid() {
+					return i, errFieldNumber
+				}
 				m := protowire.ConsumeFieldValue(num, typ, b[i:])
 				if m < 0 {
 					return i, protowire.ParseError(m)
@@ -554,6 +557,9 @@ func (d *Decoder) DecodeMapPair(b []byte, p unsafe.Pointer, f *desc.FieldDesc, t
 		case 2:
 			n, err = d.DecodeMapValue(b[i:], typ, vp, f, maxdepth)
 		default: // unknown field, skip
+			if !num.IsValid() {
+				return i, errFieldNumber
+			}
 			n = protowire.ConsumeFieldValue(num, typ, b[i:])
 			if n < 0 {
 				err = protowire.ParseError(n)
diff --git a/internal/prutal/errors.go b/internal/prutal/errors.go
index 39d1878..413ac0e 100644
--- a/internal/prutal/errors.go
+++ b/internal/prutal/errors.go
@@ -28,6 +28,7 @@ const defaultRecursionMaxDepth = 1000
 
 var (
 	errMaxDepthExceeded = errors.New("max depth exceeded")
+	errFieldNumber      = errors.New("invalid field number")
 )
 
 func newWireTypeNotMatch(t0 wire.Type, t1 desc.TagType) error {
-- 
2.43.0


From 0f3a1e4cbf82b7aa45141a02b9b4400c4c856f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 13/45] fix: return err if unmarshaling into a nil pointer

---
 internal/prutal/prutal.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/prutal/prutal.go b/internal/prutal/prutal.go
index a0c96bd..a68c359 100644
--- a/internal/prutal/prutal.go
+++ b/internal/prutal/prutal.go
@@ -24,7 +24,10 @@ import (
 	"github.com/cloudwego/prutal/internal/hack"
 )
 
-var errNotPointer = errors.New("input not pointer type")
+var (
+	errNotPointer = errors.New("input not pointer type")
+	errNilPointer = errors.New("input is nil pointer")
+)
 
 func MarshalAppend(b []byte, v interface{}) ([]byte, error) {
 	hack.PanicIfHackErr()
@@ -76,6 +79,9 @@ func Unmarshal(b []byte, v interface{}) error {
 	if rv.Kind() != reflect.Pointer {
 		return errNotPointer
 	}
+	if rv.IsNil() {
+		return errNilPointer
+	}
 	desc, err := desc.GetOrParse(rv)
 	if err != nil {
 		return err
-- 
2.43.0


From 1953f74f9db66711ac1ef1be841f6770bda51f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 14/45] fix: zero struct elements when decoding into a reused
 slice

Fields of an element not in wire data kept the value which was left in
the spare capacity of the slice.
---
 internal/prutal/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index efff536..7d8277c 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -173,6 +173,9 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 			if t.IsPointer {
 				p = d.mallocIfPointer(p, t)
 				t = t.V
+			} else if t.Kind == reflect.Struct {
+				// the spare capacity of a reused slice may not be zero
+				reflect.NewAt(t.T, p).Elem().SetZero()
 			}
 		}
 
-- 
2.43.0


From 50d0ff908e403313fdf774bedaf53e8f05975c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 15/45] fix: prutalgen accept hex and octal reserved ranges,
 and enum values in 19000-19999

---
 prutalgen/pkg/prutalgen/enum.go     | 2 +-
 prutalgen/pkg/prutalgen/reserved.go | 5 +++++
 prutalgen/pkg/prutalgen/utils.go    | 9 ++++-----
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/enum.go b/prutalgen/pkg/prutalgen/enum.go
index 3b71511..0ca1cce 100644
--- a/prutalgen/pkg/prutalgen/enum.go
+++ b/prutalgen/pkg/prutalgen/enum.go
@@ -70,7 +70,7 @@ func (e *Enum) FullName() string {
 }
 
 func (e *Enum) IsReservedField(v int32) bool {
-	return e.reserved.In(v)
+	return e.reserved.declared(v) // no numbers reserved by protobuf for enum values
 }
 
 func (e *Enum) genNoPrefix() bool {
diff --git a/prutalgen/pkg/prutalgen/reserved.go b/prutalgen/pkg/prutalgen/reserved.go
index f3661af..77538fe 100644
--- a/prutalgen/pkg/prutalgen/reserved.go
+++ b/prutalgen/pkg/prutalgen/reserved.go
@@ -39,6 +39,11 @@ func (rr reservedRanges) In(v int32) bool {
 	if v >= protobufReservedMin && v <= protobufReservedMax {
 		return true
 	}
+	return rr.declared(v)
+}
+
+// declared is like In, but only checks ranges declared by `reserved`
+func (rr reservedRanges) declared(v int32) bool {
 	for _, r := range rr {
 		if v >= r.from && v <= r.to {
 			return true
diff --git a/prutalgen/pkg/prutalgen/utils.go b/prutalgen/pkg/prutalgen/utils.go
index 1b56bb7..8e67bd6 100644
--- a/prutalgen/pkg/prutalgen/utils.go
+++ b/prutalgen/pkg/prutalgen/utils.go
@@ -20,7 +20,6 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
-	"strconv"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/antlr"
 
@@ -67,11 +66,11 @@ func getTokenPos(v antlr.ParserRuleContext) string {
 }
 
 func parseI32(c antlr.ParserRuleContext) (int32, error) {
-	v, err := strconv.ParseInt(c.GetText(), 10, 32)
-	if err != nil {
-		return 0, fmt.Errorf("%s - %w", getTokenPos(c), err)
+	v, ok := text.UnmarshalI32(c.GetText())
+	if !ok {
+		return 0, fmt.Errorf("%s - parse int32 %q err", getTokenPos(c), c.GetText())
 	}
-	return int32(v), nil
+	return v, nil
 }
 
 func isfalse(v string) bool { return v == "false" }
-- 
2.43.0


From f1bf8a5a91fc1987c21e25ce7eea32b392ea9582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 16/45] fix: prutalgen accept the min value of int32 for enum

---
 prutalgen/pkg/prutalgen/enum.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/enum.go b/prutalgen/pkg/prutalgen/enum.go
index 0ca1cce..b85ab14 100644
--- a/prutalgen/pkg/prutalgen/enum.go
+++ b/prutalgen/pkg/prutalgen/enum.go
@@ -185,15 +185,12 @@ func (x *protoLoader) ExitEnumField(c *parser.EnumFieldContext) {
 	f.Directives.Parse(f.HeadComment, f.InlineComment)
 
 	//  (MINUS)? intLit
-	if num, ok := text.UnmarshalI32(c.IntLit().GetText()); !ok {
+	if num, ok := text.UnmarshalI32(getText(c.MINUS()) + c.IntLit().GetText()); !ok {
 		t := c.IntLit()
 		x.Fatalf("%s - parse enum %q err", getTokenPos(t), t.GetText())
 	} else {
 		f.Value = num
 	}
-	if t := c.MINUS(); t != nil {
-		f.Value = -f.Value
-	}
 
 	// enumValueOptions
 	if oo := c.EnumValueOptions(); oo != nil {
-- 
2.43.0


From 1cabfeaea13c6108a289f6378cfa2e9ae9e5c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 17/45] fix: prutalgen generate enums declared in nested
 messages

---
 prutalgen/pkg/prutalgen/code.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 5ae3659..2571501 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -118,10 +118,7 @@ func (g *GoCodeGen) ProtoGen(p *Proto, w *CodeWriter) {
 	// always generate enums before messages
 	// same order as protobuf
 	for _, m := range p.Messages {
-		for _, e := range m.Enums {
-			w.F("")
-			g.EnumGen(e, w)
-		}
+		g.nestedEnumsGen(m, w)
 	}
 
 	for _, m := range p.Messages {
@@ -130,6 +127,17 @@ func (g *GoCodeGen) ProtoGen(p *Proto, w *CodeWriter) {
 	}
 }
 
+// nestedEnumsGen generates all enums declared in m and its nested messages
+func (g *GoCodeGen) nestedEnumsGen(m *Message, w *CodeWriter) {
+	for _, e := range m.Enums {
+		w.F("")
+		g.EnumGen(e, w)
+	}
+	for _, x := range m.Messages {
+		g.nestedEnumsGen(x, w)
+	}
+}
+
 func (g *GoCodeGen) EnumGen(e *Enum, w *CodeWriter) {
 	if e.HeadComment != "" {
 		w.F("%s", e.HeadComment)
-- 
2.43.0


From 77e733e454b3213f8b4b848cec01596aa15091d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 18/45] fix: prutalgen don't use the inline comment of enum as
 format string

---
 prutalgen/pkg/prutalgen/code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 2571501..4c3a340 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -142,7 +142,7 @@ func (g *GoCodeGen) EnumGen(e *Enum, w *CodeWriter) {
 	if e.HeadComment != "" {
 		w.F("%s", e.HeadComment)
 	}
-	w.F("type %s int32"+e.InlineComment, e.GoName)
+	w.F("type %s int32%s", e.GoName, e.InlineComment)
 	w.F("")
 	if len(e.Fields) > 0 {
 		w.F("const (")
-- 
2.43.0


From 7a2f715d1d1469f8900707c4405a9519a88280fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 19/45] fix: prutalgen respect [packed=false] of proto3

---
 prutalgen/pkg/prutalgen/field.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index cddc007..9b9bc55 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -96,6 +96,10 @@ func (f *Field) IsPackedEncoding() bool {
 	if p.IsProto2() {
 		return f.Options.Is(option_packed, "true")
 	}
+	if p.IsProto3() {
+		// packed by default, unless it's disabled explicitly
+		return !f.Options.Is(option_packed, "false")
+	}
 
 	if p.IsEdition2023() {
 		v := "PACKED"
-- 
2.43.0


From 70c92b8993939bc6192261e742b59ee17f61260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 20/45] fix: prutalgen support features.field_presence =
 LEGACY_REQUIRED

---
 prutalgen/pkg/prutalgen/code.go  |  2 +-
 prutalgen/pkg/prutalgen/field.go | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 4c3a340..5fe456e 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -322,7 +322,7 @@ func (g *GoCodeGen) FieldStructTag(f *Field) []byte {
 		if f.IsPackedEncoding() {
 			b = append(b, ",packed"...)
 		}
-	} else if f.Required {
+	} else if f.isRequired() {
 		b = append(b, "req"...)
 	} else {
 		b = append(b, "opt"...)
diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index 9b9bc55..abe4c37 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -83,6 +83,14 @@ func (f *Field) IsMessage() bool {
 	return !f.IsMap() && f.Type.IsMessage()
 }
 
+// isRequired reports whether the field is required by proto2 or edition 2023
+func (f *Field) isRequired() bool {
+	if f.Msg.Proto.IsEdition2023() {
+		return f.Options.Is(f_field_presence, "LEGACY_REQUIRED")
+	}
+	return f.Required
+}
+
 // IsPackedEncoding reports whether the field uses packed encoding
 func (f *Field) IsPackedEncoding() bool {
 	if f.IsMap() {
@@ -193,7 +201,7 @@ func (f *Field) IsPointer() bool {
 	if p.IsEdition2023() {
 		s, ok := f.Options.Get(f_field_presence)
 		if ok {
-			return s == "EXPLICIT"
+			return s != "IMPLICIT" // EXPLICIT or LEGACY_REQUIRED
 		}
 		s, ok = p.Options.Get(f_field_presence)
 		if ok {
-- 
2.43.0


From 7bdc770663700ad76c6a061e61633eb4cdd18f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 21/45] fix: prutalgen reject reserved names and field numbers
 out of range

---
 prutalgen/pkg/prutalgen/enum.go     |  6 +++++-
 prutalgen/pkg/prutalgen/message.go  | 10 ++++++++--
 prutalgen/pkg/prutalgen/reserved.go | 28 ++++++++++++++++++++++++++++
 3 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/enum.go b/prutalgen/pkg/prutalgen/enum.go
index b85ab14..cdaf8e9 100644
--- a/prutalgen/pkg/prutalgen/enum.go
+++ b/prutalgen/pkg/prutalgen/enum.go
@@ -37,7 +37,8 @@ type Enum struct {
 	Fields  []*EnumField
 	Options Options
 
-	reserved reservedRanges
+	reserved      reservedRanges
+	reservedNames map[string]bool
 
 	Msg   *Message // for embedded enum only
 	Proto *Proto
@@ -120,6 +121,9 @@ func (e *Enum) verify() error {
 	errs := []error{}
 	m := map[int32]bool{}
 	for _, f := range e.Fields {
+		if e.reservedNames[f.Name] {
+			errs = append(errs, fmt.Errorf("name %q is reserved", f.Name))
+		}
 		if e.IsReservedField(f.Value) {
 			errs = append(errs, fmt.Errorf("%q = %d is reserved", f.Name, f.Value))
 		} else if m[f.Value] && !e.allowAlias() {
diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index cf1c73a..d5342b4 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -43,7 +43,8 @@ type Message struct {
 	Oneofs  []*Oneof
 	Options Options
 
-	reserved reservedRanges
+	reserved      reservedRanges
+	reservedNames map[string]bool
 
 	Msg   *Message // for embedded message only
 	Proto *Proto
@@ -213,7 +214,12 @@ func (m *Message) verify() error {
 	}
 	exists := map[int32]bool{}
 	for _, x := range m.Fields {
-		if m.IsReservedField(x.FieldNumber) {
+		if m.reservedNames[x.Name] {
+			errs = append(errs, fmt.Errorf("field name %q is reserved", x.Name))
+		}
+		if x.FieldNumber < 1 || x.FieldNumber > protobufFieldNumberMax {
+			errs = append(errs, fmt.Errorf("field %q field number = %d is out of range", x.Name, x.FieldNumber))
+		} else if m.IsReservedField(x.FieldNumber) {
 			errs = append(errs, fmt.Errorf("field %q field number = %d is reserved", x.Name, x.FieldNumber))
 		} else if exists[x.FieldNumber] {
 			errs = append(errs, fmt.Errorf("field %q field number = %d is duplicated", x.Name, x.FieldNumber))
diff --git a/prutalgen/pkg/prutalgen/reserved.go b/prutalgen/pkg/prutalgen/reserved.go
index 77538fe..86d042c 100644
--- a/prutalgen/pkg/prutalgen/reserved.go
+++ b/prutalgen/pkg/prutalgen/reserved.go
@@ -26,6 +26,8 @@ const (
 	// reserved by protobuf implementation
 	protobufReservedMin = 19000
 	protobufReservedMax = 19999
+
+	protobufFieldNumberMax = 1<<29 - 1
 )
 
 type reservedRange struct {
@@ -52,7 +54,33 @@ func (rr reservedRanges) declared(v int32) bool {
 	return false
 }
 
+func (x *protoLoader) exitReservedFieldNames(c *parser.ReservedContext) {
+	var names *map[string]bool
+	switch getRuleIndex(c.GetParent()) {
+	case parser.ProtobufParserRULE_messageElement:
+		names = &x.currentMsg().reservedNames
+	case parser.ProtobufParserRULE_enumElement:
+		names = &x.enum.reservedNames
+	default:
+		return
+	}
+	if *names == nil {
+		*names = map[string]bool{}
+	}
+	for _, s := range c.ReservedFieldNames().AllStrLit() {
+		name, err := unmarshalConst(s.GetText())
+		if err != nil {
+			x.Fatalf("%s - reserved name syntax err: %s", getTokenPos(s), err)
+		}
+		(*names)[name] = true
+	}
+}
+
 func (x *protoLoader) ExitReserved(c *parser.ReservedContext) {
+	if c.ReservedFieldNames() != nil {
+		x.exitReservedFieldNames(c)
+		return
+	}
 	rc := c.Ranges()
 	if rc == nil {
 		return
-- 
2.43.0


From 0761c45888059553445c4cc9eff312789b2a07f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 22/45] fix: prutalgen resolve type names by the rules of
 protobuf

- full names starting with a dot of other packages were not found
- names relative to a parent package or scope were not found
- the innermost declaration was not always the one chosen
- types of public imports referred to the wrong Go package
---
 prutalgen/pkg/prutalgen/message.go | 29 +++++++++
 prutalgen/pkg/prutalgen/proto.go   | 51 ++++++++++++++++
 prutalgen/pkg/prutalgen/type.go    | 97 +++++++++++++++---------------
 3 files changed, 129 insertions(+), 48 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index d5342b4..4cd0473 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -116,6 +116,35 @@ func (m *Message) getType(name string) any {
 	return nil
 }
 
+// getDeclared returns the *Message or *Enum declared in m.
+// name is relative to m, or nil if not found.
+func (m *Message) getDeclared(name string) any {
+	for {
+		first, rest, _ := strings.Cut(name, ".")
+		if rest == "" {
+			for _, x := range m.Enums {
+				if x.Name == first {
+					return x
+				}
+			}
+		}
+		var next *Message
+		for _, x := range m.Messages {
+			if x.Name == first {
+				next = x
+				break
+			}
+		}
+		if next == nil {
+			return nil
+		}
+		if rest == "" {
+			return next
+		}
+		m, name = next, rest
+	}
+}
+
 func (m *Message) resolve() {
 	p := m.Proto
 	name := strings.TrimPrefix(m.FullName(), p.Package+".")
diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 405f991..571b798 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -106,6 +106,57 @@ func (p *Proto) getType(name string) any {
 	return nil
 }
 
+// visible calls f with p and all protos imported by p including public imports of them.
+// It stops if f returns true.
+func (p *Proto) visible(f func(*Proto) bool) {
+	seen := map[*Proto]bool{p: true}
+	var walk func(x *Proto) bool
+	walk = func(x *Proto) bool {
+		if f(x) {
+			return true
+		}
+		for _, imp := range x.Imports {
+			if (x == p || imp.Public) && !seen[imp.Proto] {
+				seen[imp.Proto] = true
+				if walk(imp.Proto) {
+					return true
+				}
+			}
+		}
+		return false
+	}
+	walk(p)
+}
+
+// searchFullName returns the *Message or *Enum of the full name, and the proto it's declared in.
+func (p *Proto) searchFullName(name string) (typ any, tp *Proto) {
+	p.visible(func(x *Proto) bool {
+		name := name
+		if x.Package != "" {
+			var ok bool
+			name, ok = trimPathPrefix(name, x.Package)
+			if !ok {
+				return false
+			}
+		}
+		root := Message{Enums: x.Enums, Messages: x.Messages}
+		if typ = root.getDeclared(name); typ != nil {
+			tp = x
+		}
+		return typ != nil
+	})
+	return typ, tp
+}
+
+// hasVisiblePackage reports whether name is a package or the parent of a package
+func (p *Proto) hasVisiblePackage(name string) (ret bool) {
+	p.visible(func(x *Proto) bool {
+		ret = x.Package == name || hasPathPrefix(x.Package, name)
+		return ret
+	})
+	return ret
+}
+
 func (p *Proto) IsProto2() bool {
 	return p.Edition == editionProto2
 }
diff --git a/prutalgen/pkg/prutalgen/type.go b/prutalgen/pkg/prutalgen/type.go
index 7f7c8ab..a5341e8 100644
--- a/prutalgen/pkg/prutalgen/type.go
+++ b/prutalgen/pkg/prutalgen/type.go
@@ -137,65 +137,66 @@ func (t *Type) resolve(allowScalar bool) {
 		}
 	}
 
-	if m != nil {
-		if v := m.getType(t.Name); v != nil {
-			t.typ = v
-			return
-		}
+	// https://protobuf.com/docs/language-spec#reference-resolution
+	//
+	//  (DOT)? (ident DOT)* ident
+	typ, tp := searchType(p, m, t.Name)
+	if typ == nil {
+		p.Fatalf("line %d: type %q not found.", t.rule.GetStart().GetLine(), t.Name)
+		return
 	}
+	t.typ = typ
+	if tp != nil && tp.GoImport != p.GoImport {
+		t.p = tp
+	}
+}
 
-	//  (DOT)? (ident DOT)* ident
+// searchType returns the *Message or *Enum which name refers to,
+// and the proto it's declared in, or nil if it's declared in m or its parents.
+//
+// m is the scope to start with, nil if it's used out of a message.
+func searchType(p *Proto, m *Message, name string) (any, *Proto) {
+	// starts with "." means it's a full name
+	if strings.HasPrefix(name, ".") {
+		return p.searchFullName(name[1:])
+	}
 
-	// search Message
-	if m != nil {
-		for x := m; x != nil; x = x.Msg {
-			t.typ = x.getType(t.Name)
-			if t.typ != nil {
-				return
-			}
-			for _, e := range x.Enums {
-				if e.Name == t.Name {
-					t.typ = e
-					return
-				}
+	// the first part of the name is searched from the innermost scope,
+	// then the rest of it must be declared in what's found.
+	first, rest, _ := strings.Cut(name, ".")
+
+	for x := m; x != nil; x = x.Msg {
+		switch v := x.getDeclared(first).(type) {
+		case *Enum:
+			if rest == "" {
+				return v, nil
 			}
-			for _, m := range x.Messages {
-				if v := m.getType(t.Name); v != nil {
-					t.typ = v
-					return
-				}
+		case *Message:
+			if rest == "" {
+				return v, nil
 			}
+			return v.getDeclared(rest), nil
 		}
 	}
 
-	// search proto and imports
-	protos := make([]*Proto, 0, len(p.Imports)+1)
-	protos = append(protos, p) // always check p
-	for _, x := range p.Imports {
-		if p.Package == x.Package { // same package
-			protos = append(protos, x.Proto)
+	for scope := p.Package; ; {
+		full := first
+		if scope != "" {
+			full = scope + "." + first
 		}
-	}
-
-	// if name starts with "." it means the type is in local package
-	if !strings.HasPrefix(t.Name, ".") {
-		for _, x := range p.Imports {
-			if hasPathPrefix(t.Name, x.Package) {
-				protos = append(protos, x.Proto)
-			}
+		typ, tp := p.searchFullName(full)
+		if rest == "" && typ != nil {
+			return typ, tp
 		}
-	} else {
-		// trim "." for searching type
-		t.Name = strings.TrimLeft(t.Name, ".")
-	}
-	for _, x := range protos {
-		t.typ = x.getType(t.Name)
-		if t.typ != nil {
-			if x.GoImport != p.GoImport {
-				t.p = x
+		if rest != "" {
+			if m, _ := typ.(*Message); m != nil || p.hasVisiblePackage(full) {
+				return p.searchFullName(full + "." + rest)
 			}
-			return
 		}
+		if scope == "" {
+			return nil, nil
+		}
+		scope = scope[:strings.LastIndexByte("."+scope, '.')]
+		scope = strings.TrimSuffix(scope, ".")
 	}
-	p.Fatalf("line %d: type %q not found.", t.rule.GetStart().GetLine(), t.Name)
 }
-- 
2.43.0


From 5e92dfe81d3f6b4e6ea81bf09408d5997b4f9d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 23/45] fix: prutalgen use the declared and unique package
 names for imports

---
 prutalgen/pkg/prutalgen/code.go  |  2 +-
 prutalgen/pkg/prutalgen/field.go |  3 +--
 prutalgen/pkg/prutalgen/proto.go | 34 ++++++++++++++++++++++++++++++--
 prutalgen/pkg/prutalgen/type.go  | 15 +++++++++++++-
 4 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 5fe456e..6e47d60 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -362,7 +362,7 @@ func (g *GoCodeGen) FieldGen(f *Field, w *CodeWriter) {
 	}
 	w.F("%s %s `%s` %s", f.GoName, f.GoTypeName(), g.FieldStructTag(f), f.InlineComment)
 	if f.Type.IsExternalType() {
-		w.UsePkg(f.Type.GoImport(), "")
+		w.UsePkg(f.Type.GoImport(), f.Type.goPackageName())
 	}
 	if f.Key != nil && f.Key.IsExternalType() {
 		w.UsePkg(f.Key.GoImport(), "")
diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index abe4c37..cb3f489 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -18,7 +18,6 @@ package prutalgen
 
 import (
 	"fmt"
-	"path"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/antlr"
@@ -228,7 +227,7 @@ func (f *Field) GoZero() string {
 			if !tp.IsExternalType() {
 				return zero
 			}
-			return path.Base(tp.GoImport()) + "." + zero
+			return tp.goPackageName() + "." + zero
 		}
 		return "0"
 	}
diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 571b798..e5043a1 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -19,10 +19,13 @@ package prutalgen
 import (
 	"errors"
 	"fmt"
+	"go/types"
 	"path"
+	"strconv"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/parser"
+	"github.com/cloudwego/prutal/prutalgen/internal/protobuf/strs"
 	"github.com/cloudwego/prutal/prutalgen/internal/protobuf/text"
 )
 
@@ -53,6 +56,8 @@ type Proto struct {
 
 	Services []*Service
 
+	importNames map[string]string // go import -> package name, see importName
+
 	l LoggerIface
 }
 
@@ -75,9 +80,9 @@ func (p *Proto) setGoPackage(s string) {
 	pkg = strings.TrimSpace(pkg)
 	p.GoImport = imp
 	if pkg != "" {
-		p.GoPackage = pkg
+		p.GoPackage = strs.GoSanitized(pkg)
 	} else if p.GoImport != "" {
-		p.GoPackage = path.Base(p.GoImport)
+		p.GoPackage = strs.GoSanitized(path.Base(p.GoImport))
 	}
 }
 
@@ -106,6 +111,31 @@ func (p *Proto) getType(name string) any {
 	return nil
 }
 
+// importName returns the package name of x for the generated code of p.
+// It's unique for each go import.
+func (p *Proto) importName(x *Proto) string {
+	if name := p.importNames[x.GoImport]; name != "" {
+		return name
+	}
+	if p.importNames == nil {
+		p.importNames = map[string]string{}
+	}
+	used := map[string]bool{"strconv": true, "prutal": true} // see GoCodeGen
+	for _, name := range p.importNames {
+		used[name] = true
+	}
+	base := x.GoPackage
+	if base == "" {
+		base = strs.GoSanitized(path.Base(x.GoImport))
+	}
+	name := base
+	for i := 1; used[name] || types.Universe.Lookup(name) != nil; i++ {
+		name = base + strconv.Itoa(i)
+	}
+	p.importNames[x.GoImport] = name
+	return name
+}
+
 // visible calls f with p and all protos imported by p including public imports of them.
 // It stops if f returns true.
 func (p *Proto) visible(f func(*Proto) bool) {
diff --git a/prutalgen/pkg/prutalgen/type.go b/prutalgen/pkg/prutalgen/type.go
index a5341e8..bacc96f 100644
--- a/prutalgen/pkg/prutalgen/type.go
+++ b/prutalgen/pkg/prutalgen/type.go
@@ -28,6 +28,9 @@ type Type struct {
 
 	p *Proto
 
+	// the package name of p used by generated code, see goPackageName
+	pkgName string
+
 	// *Enum or *Message
 	typ any
 
@@ -59,7 +62,15 @@ func (t *Type) GoName() string {
 	if t.p == nil {
 		return ret
 	}
-	return path.Base(t.p.GoImport) + "." + ret
+	return t.goPackageName() + "." + ret
+}
+
+// goPackageName returns the package name of an external type for generated code
+func (t *Type) goPackageName() string {
+	if t.pkgName != "" {
+		return t.pkgName
+	}
+	return path.Base(t.p.GoImport)
 }
 
 func (t *Type) IsExternalType() bool {
@@ -129,6 +140,7 @@ func (t *Type) resolve(allowScalar bool) {
 	}
 
 	t.p = nil
+	t.pkgName = ""
 	t.typ = nil
 
 	if allowScalar {
@@ -148,6 +160,7 @@ func (t *Type) resolve(allowScalar bool) {
 	t.typ = typ
 	if tp != nil && tp.GoImport != p.GoImport {
 		t.p = tp
+		t.pkgName = p.importName(tp)
 	}
 }
 
-- 
2.43.0


From 39940bb82607377b6f8b2daf4350bf93bb78a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 24/45] fix: don't expose uninitialized memory when decoding a
 scalar fails

---
 internal/prutal/decoder.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 7d8277c..5b04df2 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -58,10 +58,26 @@ func (d *Decoder) mallocIfPointer(p unsafe.Pointer, t *desc.Type) (ret unsafe.Po
 	// *p = new(type)
 	t = t.V
 	ret = d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
+	if t.MallocAbiType == 0 {
+		zeroScalar(ret, t.Size)
+	}
 	*(*unsafe.Pointer)(p) = ret
 	return
 }
 
+// zeroScalar zeros a scalar which may have been allocated by the span mem allocator.
+// The mem is not zeroed, and it must not be exposed if decoding the value fails.
+func zeroScalar(p unsafe.Pointer, n uintptr) {
+	switch n {
+	case 8:
+		*(*uint64)(p) = 0
+	case 4:
+		*(*uint32)(p) = 0
+	case 1:
+		*(*uint8)(p) = 0
+	}
+}
+
 func resetUnknownFields(s *desc.StructDesc, base unsafe.Pointer) {
 	p := unsafe.Add(base, s.UnknownFieldsOffset)
 	if s.UnknownFieldsPointer {
@@ -139,6 +155,9 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		tag := f.TagType
 		if f.IsOneof() {
 			data := d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
+			if t.MallocAbiType == 0 {
+				zeroScalar(data, t.Size)
+			}
 			hack.IfaceUpdate(p, f.IfaceTab, data)
 			p = data
 		}
@@ -173,7 +192,9 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 			if t.IsPointer {
 				p = d.mallocIfPointer(p, t)
 				t = t.V
-			} else if t.Kind == reflect.Struct {
+			} else if t.MallocAbiType == 0 {
+				zeroScalar(p, t.Size)
+			} else {
 				// the spare capacity of a reused slice may not be zero
 				reflect.NewAt(t.T, p).Elem().SetZero()
 			}
-- 
2.43.0


From bd9d05296179e826ccb1fb62eff2b48e2c5d3505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 25/45] fix: truncate sint32 values of sint32 maps to 32 bits
 before zigzag decoding

---
 internal/wire/decoder_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/wire/decoder_map.go b/internal/wire/decoder_map.go
index 1d7de93..a09a9f4 100644
--- a/internal/wire/decoder_map.go
+++ b/internal/wire/decoder_map.go
@@ -550,7 +550,7 @@ func DecodeMap_ZigZag32_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, int32](mp)
-	(*m)[protowire.DecodeZigZag32(k)] = int32(protowire.DecodeZigZag(v))
+	(*m)[protowire.DecodeZigZag32(k)] = protowire.DecodeZigZag32(v)
 	return nil
 }
 
-- 
2.43.0


From f9b119e07e7bddd81ac8f7c9af59368e5f59f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 26/45] fix: refuse protobuf_oneof on a field which is not an
 interface

reflect panicked for it instead of returning an error.
---
 internal/desc/desc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 7d1727a..f37208b 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -358,6 +358,9 @@ func parseStruct(rt reflect.Type) (s *StructDesc, err error) {
 		tag := sf.Tag.Get("protobuf")
 		if tag == "" {
 			if sf.Tag.Get("protobuf_oneof") != "" {
+				if sf.Type.Kind() != reflect.Interface {
+					return nil, fmt.Errorf("parse field %q err: oneof field is not interface", sf.Name)
+				}
 				oneofs = append(oneofs, sf)
 			}
 			continue
-- 
2.43.0


From 9c479118a24abd5792e255e0a13fbb611b2eae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 27/45] fix: prutalgen mark optional bytes fields so that empty
 values are encoded

---
 prutalgen/pkg/prutalgen/code.go  | 7 +++++++
 prutalgen/pkg/prutalgen/field.go | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 6e47d60..b72b6d0 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -332,6 +332,13 @@ func (g *GoCodeGen) FieldStructTag(f *Field) []byte {
 	b = append(b, ',')
 	b = append(b, "name="...)
 	b = append(b, f.Name...)
+
+	// bytes field is never a pointer, without the mark it's not possible to tell
+	// whether an empty []byte is set. It's same as what proto3 optional does.
+	if f.Type.GoName() == "[]byte" && !f.IsMap() && !f.Repeated &&
+		!f.isRequired() && !f.genNoPointer() && f.hasPresence() {
+		b = append(b, ",oneof"...)
+	}
 	b = append(b, '"') // end of protobuf tag
 
 	// json
diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index cb3f489..78ab098 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -179,6 +179,12 @@ func (f *Field) IsPointer() bool {
 		return false
 	}
 
+	return f.hasPresence()
+}
+
+// hasPresence reports whether a singular field tracks presence on its own,
+// it's always false for scalar fields in oneof.
+func (f *Field) hasPresence() bool {
 	if f.IsMessage() {
 		// message type is pointer by default
 		return true
-- 
2.43.0


From ff031624954b92a9791d7fb5636cee11d0958eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 28/45] fix: prutalgen concatenate adjacent string literals

Only the first one was used, so that a split go_package or import path got lost.
---
 prutalgen/internal/protobuf/text/decode_string.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prutalgen/internal/protobuf/text/decode_string.go b/prutalgen/internal/protobuf/text/decode_string.go
index d60e44d..2b0128d 100644
--- a/prutalgen/internal/protobuf/text/decode_string.go
+++ b/prutalgen/internal/protobuf/text/decode_string.go
@@ -166,5 +166,12 @@ func indexNeedEscapeInString(s string) int {
 // internal/encoding/defval package for unmarshaling bytes.
 func UnmarshalString(s string) (string, error) {
 	d := NewDecoder([]byte(s))
-	return d.parseString()
+	ret, err := d.parseString()
+	for err == nil && len(d.in) > 0 {
+		// back-to-back string literals are treated as a single string
+		var v string
+		v, err = d.parseString()
+		ret += v
+	}
+	return ret, err
 }
-- 
2.43.0


From cc369bc8e68f939888641b7e95b37da0573f781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 29/45] fix: prutalgen rename imported packages named x or init

A package named x was shadowed by the receiver of generated methods.
---
 prutalgen/pkg/prutalgen/proto.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index e5043a1..5b74503 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -120,7 +120,8 @@ func (p *Proto) importName(x *Proto) string {
 	if p.importNames == nil {
 		p.importNames = map[string]string{}
 	}
-	used := map[string]bool{"strconv": true, "prutal": true} // see GoCodeGen
+	// names used by GoCodeGen, "init" is not allowed as an import name
+	used := map[string]bool{"strconv": true, "prutal": true, "x": true, "init": true}
 	for _, name := range p.importNames {
 		used[name] = true
 	}
-- 
2.43.0


From 91b2accae1d35a04d0505d21bd3c5b7a7c989077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 30/45] fix: prutalgen never use the base of an import path as
 name for a package named otherwise

CodeWriter drops such an alias, and the code then refers to an undefined name.
---
 prutalgen/pkg/prutalgen/proto.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 5b74503..a18277c 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -129,6 +129,9 @@ func (p *Proto) importName(x *Proto) string {
 	if base == "" {
 		base = strs.GoSanitized(path.Base(x.GoImport))
 	}
+	if name := path.Base(x.GoImport); name != base {
+		used[name] = true // UsePkg drops it, then the import would be named base
+	}
 	name := base
 	for i := 1; used[name] || types.Universe.Lookup(name) != nil; i++ {
 		name = base + strconv.Itoa(i)
-- 
2.43.0


From e25ac935b2e230455b192f5a8ccbadff4b524a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 31/45] fix: prutalgen refuse files with invalid characters or
 unclosed comments

Errors of the lexer were only printed.
---
 prutalgen/pkg/prutalgen/prutalgen.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/prutalgen.go b/prutalgen/pkg/prutalgen/prutalgen.go
index 812778b..c7c91a0 100644
--- a/prutalgen/pkg/prutalgen/prutalgen.go
+++ b/prutalgen/pkg/prutalgen/prutalgen.go
@@ -236,12 +236,14 @@ func (x *protoLoader) loadEmbeddedProto(file string) *Proto {
 func (x *protoLoader) parseInput(in antlr.CharStream) {
 	p := x.currentProto()
 
+	e := &errorListener{l: x.l}
 	lexer := parser.NewProtobufLexer(in)
+	lexer.RemoveErrorListeners()
+	lexer.AddErrorListener(e)
 	s := antlr.NewCommonTokenStream(lexer, antlr.TokenDefaultChannel)
 	push(&x.streams, newStreamContext(s))
 	defer pop(&x.streams)
 
-	e := &errorListener{l: x.l}
 	ps := parser.NewProtobufParser(s)
 	ps.RemoveErrorListeners()
 	ps.AddErrorListener(e)
-- 
2.43.0


From 3c762fa08053f72788d1d943813be11a01fe34de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 32/45] fix: prutalgen accept a byte order mark at the start of
 a file

---
 prutalgen/pkg/prutalgen/prutalgen.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/prutalgen.go b/prutalgen/pkg/prutalgen/prutalgen.go
index c7c91a0..d1f04f8 100644
--- a/prutalgen/pkg/prutalgen/prutalgen.go
+++ b/prutalgen/pkg/prutalgen/prutalgen.go
@@ -205,11 +205,12 @@ func (x *protoLoader) loadProto(file string) *Proto {
 	x.protos = append(x.protos, p)
 
 	x.Infof("parsing")
-	is, err := antlr.NewFileStream(p.ProtoFile)
+	data, err := os.ReadFile(p.ProtoFile)
 	if err != nil {
 		x.Fatalf("open file err: %s", err)
 	}
-	x.parseInput(is)
+	data = bytes.TrimPrefix(data, []byte("\xef\xbb\xbf")) // utf-8 byte order mark
+	x.parseInput(antlr.NewIoStream(bytes.NewReader(data)))
 	return p
 }
 
-- 
2.43.0


From e8cc8f25da3d7e85029bda85bad896ab012bb533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:25 +0000
Subject: [PATCH 33/45] fix: prutalgen let the M option override go_package,
 also for embedded files

---
 prutalgen/pkg/prutalgen/proto.go     | 13 +++++++++++++
 prutalgen/pkg/prutalgen/prutalgen.go | 15 +++++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index a18277c..7cbe989 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -86,6 +86,19 @@ func (p *Proto) setGoPackage(s string) {
 	}
 }
 
+// mergeGoPackage returns a with its missing import path or package name taken from b.
+func mergeGoPackage(a, b string) string {
+	imp, pkg, _ := strings.Cut(a, ";")
+	bimp, bpkg, _ := strings.Cut(b, ";")
+	if imp == "" {
+		imp = bimp
+	}
+	if pkg == "" {
+		pkg = bpkg
+	}
+	return imp + ";" + pkg
+}
+
 func (p *Proto) getType(name string) any {
 	for _, m := range p.Messages {
 		if v := m.getType(name); v != nil {
diff --git a/prutalgen/pkg/prutalgen/prutalgen.go b/prutalgen/pkg/prutalgen/prutalgen.go
index d1f04f8..3906676 100644
--- a/prutalgen/pkg/prutalgen/prutalgen.go
+++ b/prutalgen/pkg/prutalgen/prutalgen.go
@@ -199,7 +199,6 @@ func (x *protoLoader) loadProto(file string) *Proto {
 		Edition:   editionProto2,
 		l:         x.l,
 	}
-	p.setGoPackage(x.proto2gopkg[file])
 	push(&x.protostack, p)
 	defer pop(&x.protostack)
 	x.protos = append(x.protos, p)
@@ -210,7 +209,7 @@ func (x *protoLoader) loadProto(file string) *Proto {
 		x.Fatalf("open file err: %s", err)
 	}
 	data = bytes.TrimPrefix(data, []byte("\xef\xbb\xbf")) // utf-8 byte order mark
-	x.parseInput(antlr.NewIoStream(bytes.NewReader(data)))
+	x.parseInput(antlr.NewIoStream(bytes.NewReader(data)), x.proto2gopkg[file])
 	return p
 }
 
@@ -230,11 +229,12 @@ func (x *protoLoader) loadEmbeddedProto(file string) *Proto {
 	defer pop(&x.protostack)
 	x.protos = append(x.protos, p)
 	is := antlr.NewIoStream(bytes.NewReader(data))
-	x.parseInput(is)
+	x.parseInput(is, x.proto2gopkg[file])
 	return p
 }
 
-func (x *protoLoader) parseInput(in antlr.CharStream) {
+// parseInput parses the file, gopkg is the M option for it.
+func (x *protoLoader) parseInput(in antlr.CharStream, gopkg string) {
 	p := x.currentProto()
 
 	e := &errorListener{l: x.l}
@@ -257,10 +257,9 @@ func (x *protoLoader) parseInput(in antlr.CharStream) {
 	comment := x.consumeHeadComment(proto)
 	p.Directives.Parse(comment)
 
-	gopkg, ok := p.Options.Get("go_package")
-	if ok {
-		p.setGoPackage(gopkg)
-	}
+	// same as protoc, the M option has a higher priority than go_package
+	opt, _ := p.Options.Get("go_package")
+	p.setGoPackage(mergeGoPackage(gopkg, opt))
 	if p.GoPackage == "" {
 		x.Fatalf(`option "go_package" not set`)
 	}
-- 
2.43.0


From f0cebd673e48ebb608237e46c904837c2aca99d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:36 +0000
Subject: [PATCH 34/45] fix: prutalgen refuse rpc types which are enums

---
 prutalgen/pkg/prutalgen/service.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prutalgen/pkg/prutalgen/service.go b/prutalgen/pkg/prutalgen/service.go
index 972e1dc..1a94945 100644
--- a/prutalgen/pkg/prutalgen/service.go
+++ b/prutalgen/pkg/prutalgen/service.go
@@ -70,6 +70,11 @@ func (r *Method) resolve() {
 	r.GoName = strs.GoCamelCase(r.Name)
 	r.Request.resolve(false)
 	r.Return.resolve(false)
+	for _, t := range []*Type{r.Request, r.Return} {
+		if t.IsEnum() {
+			r.Service.Proto.Fatalf("line %d: %q is not a message type.", t.rule.GetStart().GetLine(), t.Name)
+		}
+	}
 }
 
 func (x *protoLoader) EnterServiceDef(c *parser.ServiceDefContext) {
-- 
2.43.0


From 6b8e37411ea303aefee07ae79cccc38bee72a864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:36 +0000
Subject: [PATCH 35/45] fix: prutalgen stop the search of a type name at an
 enum named as its first part

---
 prutalgen/pkg/prutalgen/type.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/type.go b/prutalgen/pkg/prutalgen/type.go
index bacc96f..96b2f06 100644
--- a/prutalgen/pkg/prutalgen/type.go
+++ b/prutalgen/pkg/prutalgen/type.go
@@ -184,6 +184,7 @@ func searchType(p *Proto, m *Message, name string) (any, *Proto) {
 			if rest == "" {
 				return v, nil
 			}
+			return nil, nil // nothing can be declared in an enum
 		case *Message:
 			if rest == "" {
 				return v, nil
@@ -202,7 +203,7 @@ func searchType(p *Proto, m *Message, name string) (any, *Proto) {
 			return typ, tp
 		}
 		if rest != "" {
-			if m, _ := typ.(*Message); m != nil || p.hasVisiblePackage(full) {
+			if typ != nil || p.hasVisiblePackage(full) {
 				return p.searchFullName(full + "." + rest)
 			}
 		}
-- 
2.43.0


From 7791b845217cf881b390b020200c83068ba0f8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:19 +0000
Subject: [PATCH 36/45] fix: prutalgen name oneof wrappers apart from map
 entries, same as protoc-gen-go

---
 prutalgen/pkg/prutalgen/message.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index 4cd0473..7492e2a 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -175,6 +175,7 @@ func (m *Message) resolve() {
 // resolveOneofTypeConflicts ensures the wrapper struct name of each oneof
 // field does not collide with a sibling nested message or enum GoName by
 // appending '_' to the wrapper name (not the field's GoName).
+// The nested messages include the map entries.
 //
 // Mirrors the second pass in protoc-gen-go's protogen.newMessage.
 func (m *Message) resolveOneofTypeConflicts() {
@@ -185,6 +186,11 @@ func (m *Message) resolveOneofTypeConflicts() {
 	for _, x := range m.Enums {
 		nested[x.GoName] = true
 	}
+	for _, f := range m.Fields {
+		if f.IsMap() {
+			nested[m.GoName+strs.GoCamelCase("."+strs.MapEntryName(f.Name))] = true
+		}
+	}
 	for _, f := range m.Fields {
 		if f.Oneof == nil {
 			continue
-- 
2.43.0


From ea1d91402dd8b027b30a2f19eb215e1a00ca8446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 37/45] fix: prutalgen rename fields which meet the synthetic
 oneof of an optional field, same as protoc-gen-go

---
 prutalgen/pkg/prutalgen/message.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index 7492e2a..e35bbaa 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -219,6 +219,13 @@ func (m *Message) resolveFieldConflicts() {
 		"ExtensionMap":        true,
 		"Descriptor":          true,
 	}
+	declared := map[string]bool{} // names of fields and oneofs in the IDL
+	for _, f := range m.Fields {
+		declared[f.Name] = true
+	}
+	for _, o := range m.Oneofs {
+		declared[o.Name] = true
+	}
 	for _, f := range m.Fields {
 		for usedNames[f.GoName] || usedNames["Get"+f.GoName] {
 			f.GoName += "_"
@@ -231,6 +238,22 @@ func (m *Message) resolveFieldConflicts() {
 				o.GoName += "_"
 			}
 			usedNames[o.GoName] = true
+		} else if f.Optional && m.Proto.IsProto3() {
+			// protoc holds the field in a synthetic oneof of its own,
+			// and the name of the oneof is in use as well.
+			name := f.Name
+			if !strings.HasPrefix(name, "_") {
+				name = "_" + name
+			}
+			for declared[name] {
+				name = "X" + name
+			}
+			declared[name] = true
+			goName := strs.GoCamelCase(name)
+			for usedNames[goName] {
+				goName += "_"
+			}
+			usedNames[goName] = true
 		}
 	}
 }
-- 
2.43.0


From cf53a4683840cd939292cbf3fc3933f55b35bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 38/45] fix: prutalgen replace characters in comments which
 break the generated code

---
 prutalgen/pkg/prutalgen/comment.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/comment.go b/prutalgen/pkg/prutalgen/comment.go
index fb5fec7..786addc 100644
--- a/prutalgen/pkg/prutalgen/comment.go
+++ b/prutalgen/pkg/prutalgen/comment.go
@@ -55,6 +55,19 @@ func filterCommentOrWhitespace(tt []antlr.Token) (ret []antlr.Token, hasComment
 	return ret, true
 }
 
+// goComment returns the comment s with spaces for the characters which are not allowed in Go source,
+// or which go/format takes as layout and drops the following line break.
+func goComment(s string) string {
+	s = strings.Map(func(r rune) rune {
+		switch r {
+		case 0, '\ufeff', '\f', '\v':
+			return ' '
+		}
+		return r
+	}, s)
+	return strings.TrimSpace(s)
+}
+
 func (x *streamContext) consumeHeadComment(c antlr.ParserRuleContext) string {
 	tt, ok := filterCommentOrWhitespace(
 		x.s.GetHiddenTokensToLeft(c.GetStart().GetTokenIndex(), -1),
@@ -79,7 +92,7 @@ func (x *streamContext) consumeHeadComment(c antlr.ParserRuleContext) string {
 			}
 		}
 		x.commentConsumed[ti] = true
-		s = strings.TrimSpace(s)
+		s = goComment(s)
 		if s != "" {
 			ss = append(ss, s)
 		}
@@ -116,7 +129,7 @@ func (x *streamContext) consumeInlineComment(c antlr.ParserRuleContext) string {
 		}
 		// parser.ProtobufParserLINE_COMMENT or parser.ProtobufParserCOMMENT
 		x.commentConsumed[t.GetTokenIndex()] = true
-		return strings.TrimSpace(t.GetText())
+		return goComment(t.GetText())
 	}
 	return ""
 }
-- 
2.43.0


From 42221eb9ef39f73399ba1aa19f4144b41087c209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 39/45] fix: prutalgen keep build constraints in comments from
 taking effect

---
 prutalgen/pkg/prutalgen/comment.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/comment.go b/prutalgen/pkg/prutalgen/comment.go
index 786addc..265c188 100644
--- a/prutalgen/pkg/prutalgen/comment.go
+++ b/prutalgen/pkg/prutalgen/comment.go
@@ -17,6 +17,7 @@
 package prutalgen
 
 import (
+	"go/build/constraint"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/antlr"
@@ -65,7 +66,12 @@ func goComment(s string) string {
 		}
 		return r
 	}, s)
-	return strings.TrimSpace(s)
+	s = strings.TrimSpace(s)
+	if constraint.IsGoBuild(s) || constraint.IsPlusBuild(s) {
+		// go/format moves it to the top of the file, and then it's effective
+		s = "// " + s
+	}
+	return s
 }
 
 func (x *streamContext) consumeHeadComment(c antlr.ParserRuleContext) string {
-- 
2.43.0


From 114fa28e9d85090406fec6a963aafa84b31d4cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 40/45] fix: prutalgen refuse editions in syntax statements and
 the other way round

---
 prutalgen/pkg/prutalgen/proto.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 7cbe989..ee5986a 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -273,8 +273,10 @@ func (x *protoLoader) ExitEdition(c *parser.EditionContext) {
 	if err != nil {
 		x.Fatalf("%s : %s", getTokenPos(s), err)
 	}
-	switch v {
-	case editionProto2, editionProto3, edition2023:
+	switch {
+	case c.SYNTAX() != nil && (v == editionProto2 || v == editionProto3):
+		p.Edition = v
+	case c.EDITION() != nil && v == edition2023:
 		p.Edition = v
 	default:
 		x.Fatalf("%s : unknown syntax/edition %q", getTokenPos(s), v)
-- 
2.43.0


From e61c98244260116cf96441400220e29e3476286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 41/45] fix: prutalgen write source_relative output below
 go_out, same as protoc

---
 prutalgen/pkg/prutalgen/code.go      |  4 +++
 prutalgen/pkg/prutalgen/proto.go     |  7 +++--
 prutalgen/pkg/prutalgen/prutalgen.go | 41 +++++++++++++++++++++++-----
 3 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index b72b6d0..1d71e34 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -70,6 +70,10 @@ func (g *GoCodeGen) SourcePath(p *Proto, gt GenPathType, out string, suffix stri
 	case GenBySourceRelative:
 		// same path as proto file
 		fn = strings.TrimSuffix(p.ProtoFile, ".proto") + suffix
+		if out != "" && p.name != "" {
+			// same as protoc, the path relative to the include goes to out
+			fn = filepath.Join(out, fullFilename("", strings.TrimSuffix(p.name, ".proto")+suffix))
+		}
 
 	default:
 		panic("unknown GenPathType: " + gt)
diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index ee5986a..8b80763 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -40,8 +40,11 @@ type Import struct {
 // Proto represents a proto file
 type Proto struct {
 	ProtoFile string
-	Edition   string
-	Package   string
+
+	// name of the file relative to the include it belongs to, empty if it belongs to none
+	name    string
+	Edition string
+	Package string
 
 	GoImport  string // the full import path
 	GoPackage string // package name without path
diff --git a/prutalgen/pkg/prutalgen/prutalgen.go b/prutalgen/pkg/prutalgen/prutalgen.go
index 3906676..a607b6f 100644
--- a/prutalgen/pkg/prutalgen/prutalgen.go
+++ b/prutalgen/pkg/prutalgen/prutalgen.go
@@ -75,7 +75,9 @@ func fullFilename(incl string, file string) string {
 	return filepath.FromSlash(path.Join(incl, file))
 }
 
-func (x *protoLoader) searchProtoFile(file string) string {
+// searchProtoFile returns the path of the file, and its name relative to the include
+// it belongs to. The name is empty if it belongs to none.
+func (x *protoLoader) searchProtoFile(file string) (fn string, name string) {
 	for _, incl := range x.includes {
 		fn := fullFilename(incl, file)
 		fn, err := filepath.Abs(fn)
@@ -83,11 +85,31 @@ func (x *protoLoader) searchProtoFile(file string) string {
 			continue
 		}
 		if _, err := os.Stat(fn); err == nil {
-			return fn
+			if incl == "" || !filepath.IsLocal(filepath.FromSlash(file)) { // not relative to incl
+				return fn, x.includedName(fn)
+			}
+			return fn, file
 		}
 	}
 	x.Fatalf("proto file %q not found in includes %v", file, x.includes)
-	return "" // never goes here
+	return "", "" // never goes here
+}
+
+// includedName returns the name relative to an include which fn is in, if any.
+func (x *protoLoader) includedName(fn string) string {
+	for _, incl := range x.includes {
+		if incl == "" {
+			continue
+		}
+		dir, err := filepath.Abs(incl)
+		if err != nil {
+			continue
+		}
+		if rel, err := filepath.Rel(dir, fn); err == nil && filepath.IsLocal(rel) {
+			return filepath.ToSlash(rel)
+		}
+	}
+	return ""
 }
 
 func (x *protoLoader) LoadProto(file string) []*Proto {
@@ -179,7 +201,7 @@ func (x *protoLoader) loadProto(file string) *Proto {
 	if embeddedProtos[file] != nil {
 		return x.loadEmbeddedProto(file)
 	}
-	protofile := x.searchProtoFile(file)
+	protofile, name := x.searchProtoFile(file)
 
 	if proto := x.getByFile(protofile, true); proto != nil {
 		files := make([]string, 0, len(x.protostack))
@@ -197,6 +219,7 @@ func (x *protoLoader) loadProto(file string) *Proto {
 	p := &Proto{
 		ProtoFile: protofile,
 		Edition:   editionProto2,
+		name:      name,
 		l:         x.l,
 	}
 	push(&x.protostack, p)
@@ -209,7 +232,11 @@ func (x *protoLoader) loadProto(file string) *Proto {
 		x.Fatalf("open file err: %s", err)
 	}
 	data = bytes.TrimPrefix(data, []byte("\xef\xbb\xbf")) // utf-8 byte order mark
-	x.parseInput(antlr.NewIoStream(bytes.NewReader(data)), x.proto2gopkg[file])
+	gopkg, ok := x.proto2gopkg[name]
+	if !ok {
+		gopkg = x.proto2gopkg[file]
+	}
+	x.parseInput(antlr.NewIoStream(bytes.NewReader(data)), gopkg)
 	return p
 }
 
@@ -222,8 +249,8 @@ func (x *protoLoader) loadEmbeddedProto(file string) *Proto {
 	p := &Proto{
 		ProtoFile: file,
 		Edition:   editionProto2,
-
-		l: x.l,
+		name:      file,
+		l:         x.l,
 	}
 	push(&x.protostack, p)
 	defer pop(&x.protostack)
-- 
2.43.0


From 176a6bf202c171bd2a6fca719970253a0e1fd553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 42/45] fix: features set in a block are ignored

---
 prutalgen/pkg/prutalgen/consts.go |  2 ++
 prutalgen/pkg/prutalgen/field.go  |  4 ++--
 prutalgen/pkg/prutalgen/option.go | 35 +++++++++++++++++++++++++------
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/consts.go b/prutalgen/pkg/prutalgen/consts.go
index 1f416fe..7cd2f99 100644
--- a/prutalgen/pkg/prutalgen/consts.go
+++ b/prutalgen/pkg/prutalgen/consts.go
@@ -43,6 +43,8 @@ const (
 	// editions features
 	// see: https://protobuf.dev/editions/features/
 
+	option_features = "features" // all of them in a block
+
 	f_repeated_field_encoding = "features.repeated_field_encoding"
 	f_field_presence          = "features.field_presence"
 )
diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index 78ab098..4494c90 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -326,11 +326,11 @@ func (x *protoLoader) newField(c fieldWithKeyTypeContext) *Field {
 	f.FieldNumber = num
 	if oo := c.FieldOptions(); oo != nil {
 		for _, o := range oo.AllFieldOption() {
-			v, err := unmarshalConst(o.Constant().GetText())
+			opt, err := newOption(o.OptionName().GetText(), o.Constant())
 			if err != nil {
 				x.Fatalf("%s - field option syntax err: %s", getTokenPos(o), err)
 			}
-			f.Options = append(f.Options, &Option{Name: o.OptionName().GetText(), Value: v})
+			f.Options = append(f.Options, opt)
 		}
 	}
 	return f
diff --git a/prutalgen/pkg/prutalgen/option.go b/prutalgen/pkg/prutalgen/option.go
index a486496..9c959ea 100644
--- a/prutalgen/pkg/prutalgen/option.go
+++ b/prutalgen/pkg/prutalgen/option.go
@@ -26,6 +26,8 @@ import (
 type Option struct {
 	Name  string
 	Value string
+
+	features Options // set by `features = { ... }`, by their full names
 }
 
 type Options []*Option
@@ -50,6 +52,9 @@ func (oo Options) Get(name string) (string, bool) {
 		if o.Name == name {
 			return o.Value, true
 		}
+		if v, ok := o.features.Get(name); ok {
+			return v, true
+		}
 	}
 	return "", false
 }
@@ -59,19 +64,37 @@ func (oo Options) Is(name string, value string) bool {
 	return ok && s == value
 }
 
-func (x *protoLoader) ExitOptionStatement(c *parser.OptionStatementContext) {
-	v, err := unmarshalConst(c.Constant().GetText())
+func newOption(name string, c parser.IConstantContext) (*Option, error) {
+	v, err := unmarshalConst(c.GetText())
 	if err != nil {
-		x.Fatalf("%s - option syntax err: %s", getTokenPos(c), err)
+		return nil, err
+	}
+	o := &Option{Name: name, Value: v}
+	if b := c.BlockLit(); b != nil && name == option_features {
+		for i, id := range b.AllIdent() {
+			f, err := newOption(option_features+"."+id.GetText(), b.Constant(i))
+			if err != nil {
+				return nil, err
+			}
+			o.features = append(o.features, f)
+		}
 	}
+	return o, nil
+}
 
+func (x *protoLoader) ExitOptionStatement(c *parser.OptionStatementContext) {
 	// name may include extensions like (gogoproto.goproto_unrecognized_all)
 	// we ignore parsing it, coz it's only used by protoc.
 	// but we will keep it for optimization cases like `[(gogoproto.nullable) = false];`
-	o := &Option{Name: c.OptionName().GetText(), Value: v}
+	o, err := newOption(c.OptionName().GetText(), c.Constant())
+	if err != nil {
+		x.Fatalf("%s - option syntax err: %s", getTokenPos(c), err)
+	}
 
-	if !verifyOption(o.Name, o.Value) {
-		x.Fatalf("%s - option %q unsupported value %q", getTokenPos(c), o.Name, o.Value)
+	for _, o := range append(Options{o}, o.features...) {
+		if !verifyOption(o.Name, o.Value) {
+			x.Fatalf("%s - option %q unsupported value %q", getTokenPos(c), o.Name, o.Value)
+		}
 	}
 
 	switch getRuleIndex(c.GetParent()) {
-- 
2.43.0


From 5663f563e13f0dec33a07a279d1b534d7386a396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 43/45] fix: refuse DELIMITED message encoding, which was
 generated as length-prefixed

---
 prutalgen/pkg/prutalgen/consts.go | 1 +
 prutalgen/pkg/prutalgen/field.go  | 3 +++
 prutalgen/pkg/prutalgen/option.go | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/prutalgen/pkg/prutalgen/consts.go b/prutalgen/pkg/prutalgen/consts.go
index 7cd2f99..a39cabc 100644
--- a/prutalgen/pkg/prutalgen/consts.go
+++ b/prutalgen/pkg/prutalgen/consts.go
@@ -47,6 +47,7 @@ const (
 
 	f_repeated_field_encoding = "features.repeated_field_encoding"
 	f_field_presence          = "features.field_presence"
+	f_message_encoding        = "features.message_encoding"
 )
 
 const ( // proto2 options
diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index 4494c90..e27d4e7 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -333,6 +333,9 @@ func (x *protoLoader) newField(c fieldWithKeyTypeContext) *Field {
 			f.Options = append(f.Options, opt)
 		}
 	}
+	if v, ok := f.Options.Get(f_message_encoding); ok && !verifyOption(f_message_encoding, v) {
+		x.Fatalf("%s - option %q unsupported value %q", getTokenPos(c), f_message_encoding, v)
+	}
 	return f
 }
 
diff --git a/prutalgen/pkg/prutalgen/option.go b/prutalgen/pkg/prutalgen/option.go
index 9c959ea..38dba23 100644
--- a/prutalgen/pkg/prutalgen/option.go
+++ b/prutalgen/pkg/prutalgen/option.go
@@ -135,6 +135,9 @@ func verifyOption(name, v string) bool {
 	case f_field_presence:
 		return v == "EXPLICIT" || v == "IMPLICIT"
 
+	case f_message_encoding: // prutal has no groups
+		return v == "LENGTH_PREFIXED"
+
 	case option_packed, option_allow_alias:
 		return verifyTrueOrFalse(v)
 
-- 
2.43.0


From e2446aa60195e52e59369b74ea3a349ca9f60202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:35 +0000
Subject: [PATCH 44/45] fix: imported packages named like a declaration of the
 generated code

---
 prutalgen/pkg/prutalgen/proto.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 8b80763..9916b05 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -148,6 +148,8 @@ func (p *Proto) importName(x *Proto) string {
 	if name := path.Base(x.GoImport); name != base {
 		used[name] = true // UsePkg drops it, then the import would be named base
 	}
+	// the name must not be that of a type, a const or a var of the Go package, all of which have an upper case letter
+	base = strs.GoSanitized(strings.ToLower(base))
 	name := base
 	for i := 1; used[name] || types.Universe.Lookup(name) != nil; i++ {
 		name = base + strconv.Itoa(i)
-- 
2.43.0


From fb3f4916d5cad683168908b22c049077b1a3f589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:22 +0000
Subject: [PATCH 45/45] fix: unsupported values of field options

The values of packed and of features were checked for option statements,
but not for options of fields, where a misspelt value was silently
taken as if the option had not been set.
---
 prutalgen/pkg/prutalgen/field.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index e27d4e7..0e2cfd8 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -330,12 +330,18 @@ func (x *protoLoader) newField(c fieldWithKeyTypeContext) *Field {
 			if err != nil {
 				x.Fatalf("%s - field option syntax err: %s", getTokenPos(o), err)
 			}
+			for _, fo := range append(Options{opt}, opt.features...) {
+				// unlike files, fields may have LEGACY_REQUIRED
+				if fo.Name == f_field_presence && fo.Value == "LEGACY_REQUIRED" {
+					continue
+				}
+				if !verifyOption(fo.Name, fo.Value) {
+					x.Fatalf("%s - field option %q unsupported value %q", getTokenPos(o), fo.Name, fo.Value)
+				}
+			}
 			f.Options = append(f.Options, opt)
 		}
 	}
-	if v, ok := f.Options.Get(f_message_encoding); ok && !verifyOption(f_message_encoding, v) {
-		x.Fatalf("%s - option %q unsupported value %q", getTokenPos(c), f_message_encoding, v)
-	}
 	return f
 }
 
-- 
2.43.0

