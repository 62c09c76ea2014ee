From 9bfd3f117b3f20e44a1a3f3988f27da75f26b5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 01/12] fix: Decode returns an error for malformed input
 instead of panicking or looping

A varint over 64 bits, a length past the end of the buffer (or one that is
negative as an int) and an unknown or group wire type made Decode panic or loop
forever. Field id 0, which is what a zero-filled region reads as, was accepted.
---
 zeropb.go | 58 ++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index ee03185..dffad67 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -429,6 +429,8 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 		tag, size := binary.Uvarint(buf[idx:])
 		if size == 0 {
 			return io.ErrUnexpectedEOF
+		} else if size < 0 {
+			return errVarintOverflow
 		}
 		idx += size
 		if idx >= len(buf) {
@@ -437,6 +439,11 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 
 		fieldID := int(tag >> 3)
 		typ := tag & 0x7
+		if fieldID == 0 {
+			// Field ids start at 1, so no encoder writes this. The most likely
+			// source is a zero-filled region.
+			return errors.Errorf(`illegal tag: %d`, tag)
+		}
 		// fmt.Printf("tag=%x field=%d typ=%d idx=%d\n", tag, fieldID, typ, idx)
 
 		// TODO(dan): It's odd that we're passing in only the repeatedness of the
@@ -458,9 +465,9 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 			// support so leave it unsupported for now.
 		}
 
-		s := fieldDataSize(typ, buf[idx:])
-		if s == 0 {
-			return io.ErrUnexpectedEOF
+		s, err := fieldDataSize(typ, buf[idx:])
+		if err != nil {
+			return err
 		}
 		idx += s
 	}
@@ -485,29 +492,54 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 		if f == field {
 			return buf[idx:], msg
 		}
-		idx += fieldDataSize(typ, buf[idx:])
+		s, err := fieldDataSize(typ, buf[idx:])
+		if err != nil {
+			return nil, msg
+		}
+		idx += s
 	}
 	return nil, msg
 }
 
-func fieldDataSize(typ uint64, buf []byte) int {
+// errVarintOverflow is returned by Decode for a varint that doesn't fit in 64
+// bits.
+var errVarintOverflow = errors.New(`varint overflows 64 bits`)
+
+// fieldDataSize returns the encoded size of the field data at the start of buf.
+// The size of a varint or bytes field never reaches past the end of buf, but
+// that of a fixed32 or fixed64 one may.
+func fieldDataSize(typ uint64, buf []byte) (int, error) {
 	switch typ {
 	case proto.WireVarint:
 		_, size := binary.Uvarint(buf)
-		return size
+		return size, varintError(size)
 	case proto.WireFixed32:
-		return 4
+		return 4, nil
 	case proto.WireFixed64:
-		return 8
+		return 8, nil
 	case proto.WireBytes:
-		len, lenSize := binary.Uvarint(buf)
-		if lenSize == 0 {
-			return 0
+		dataLen, lenSize := binary.Uvarint(buf)
+		if err := varintError(lenSize); err != nil {
+			return 0, err
 		}
-		return lenSize + int(len)
+		if dataLen > uint64(len(buf)-lenSize) {
+			return 0, io.ErrUnexpectedEOF
+		}
+		return lenSize + int(dataLen), nil
 	default:
-		panic(errors.Errorf(`unsupported type: %d`, typ))
+		return 0, errors.Errorf(`unsupported type: %d`, typ)
+	}
+}
+
+// varintError returns the error, if any, indicated by the size returned by
+// binary.Uvarint.
+func varintError(size int) error {
+	if size == 0 {
+		return io.ErrUnexpectedEOF
+	} else if size < 0 {
+		return errVarintOverflow
 	}
+	return nil
 }
 
 // RepeatedFields indicates which fields are repeated, indexed by field id.
-- 
2.43.0


From bdc9513e69dd00b7985ee081ba7a164156da7347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 02/12] fix: Decode skips field ids larger than any in the
 schema

A message encoded with a newer version of the schema made it panic.
---
 offsets.go | 7 +++++++
 zeropb.go  | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/offsets.go b/offsets.go
index ed2101e..9b200ac 100644
--- a/offsets.go
+++ b/offsets.go
@@ -43,6 +43,13 @@ func WrapOffsets(a []uint16, m *map[int]uint64) Offsets {
 	return Offsets{a: a, m: m}
 }
 
+// InRange returns whether the given field id is one that Offsets can store.
+// This is always true of the fields in the schema but a message encoded with a
+// newer version of the schema may have others.
+func (o Offsets) InRange(fieldID int) bool {
+	return fieldID < len(o.a)
+}
+
 // Get returns the offset of the given field or false if it's not present.
 func (o Offsets) Get(fieldID int) (uint64, bool) {
 	if offset := o.a[fieldID]; offset != offsetInMap {
diff --git a/zeropb.go b/zeropb.go
index dffad67..f4f0c0f 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -448,7 +448,9 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 
 		// TODO(dan): It's odd that we're passing in only the repeatedness of the
 		// field. Maybe pass in some sort of field descriptor instead?
-		if _, ok := repeatedFields[fieldID]; ok {
+		if !offsets.InRange(fieldID) {
+			// A field larger than any in our version of the schema, skip it.
+		} else if _, ok := repeatedFields[fieldID]; ok {
 			// For a repeated field, set the offset if this is the first one we've
 			// found but don't overwrite an earlier offset. The repeated field
 			// iterator will start from this offset and re-parse the rest of the
-- 
2.43.0


From 340cbd3b13293d0a3196ef82b35137d75939f9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 03/12] fix: field access doesn't panic on a field encoded with
 another wire type

Decode doesn't know the declared types, so it accepts these. Accessing such a
field read past the end of the message, panicking or returning whatever followed
it in the underlying array.
---
 zeropb.go | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index f4f0c0f..6977929 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -87,7 +87,7 @@ func GetZigZagInt64(buf []byte, offsets Offsets, fieldID int) int64 {
 // id.
 func GetFixedUint32(buf []byte, offsets Offsets, fieldID int) uint32 {
 	offset, ok := offsets.Get(fieldID)
-	if !ok {
+	if !ok || uint64(len(buf))-offset < 4 {
 		return 0
 	}
 	return binary.LittleEndian.Uint32(buf[offset : offset+4])
@@ -97,7 +97,7 @@ func GetFixedUint32(buf []byte, offsets Offsets, fieldID int) uint32 {
 // id.
 func GetFixedUint64(buf []byte, offsets Offsets, fieldID int) uint64 {
 	offset, ok := offsets.Get(fieldID)
-	if !ok {
+	if !ok || uint64(len(buf))-offset < 8 {
 		return 0
 	}
 	return binary.LittleEndian.Uint64(buf[offset : offset+8])
@@ -107,7 +107,7 @@ func GetFixedUint64(buf []byte, offsets Offsets, fieldID int) uint64 {
 // id.
 func GetFixedInt32(buf []byte, offsets Offsets, fieldID int) int32 {
 	offset, ok := offsets.Get(fieldID)
-	if !ok {
+	if !ok || uint64(len(buf))-offset < 4 {
 		return 0
 	}
 	return int32(binary.LittleEndian.Uint32(buf[offset : offset+4]))
@@ -117,7 +117,7 @@ func GetFixedInt32(buf []byte, offsets Offsets, fieldID int) int32 {
 // id.
 func GetFixedInt64(buf []byte, offsets Offsets, fieldID int) int64 {
 	offset, ok := offsets.Get(fieldID)
-	if !ok {
+	if !ok || uint64(len(buf))-offset < 8 {
 		return 0
 	}
 	return int64(binary.LittleEndian.Uint64(buf[offset : offset+8]))
@@ -127,7 +127,7 @@ func GetFixedInt64(buf []byte, offsets Offsets, fieldID int) int64 {
 // given field id.
 func GetFloat32(buf []byte, offsets Offsets, fieldID int) float32 {
 	offset, ok := offsets.Get(fieldID)
-	if !ok {
+	if !ok || uint64(len(buf))-offset < 4 {
 		return 0
 	}
 	bits := binary.LittleEndian.Uint32(buf[offset : offset+4])
@@ -138,7 +138,7 @@ func GetFloat32(buf []byte, offsets Offsets, fieldID int) float32 {
 // given field id.
 func GetFloat64(buf []byte, offsets Offsets, fieldID int) float64 {
 	offset, ok := offsets.Get(fieldID)
-	if !ok {
+	if !ok || uint64(len(buf))-offset < 8 {
 		return 0
 	}
 	bits := binary.LittleEndian.Uint64(buf[offset : offset+8])
@@ -151,9 +151,7 @@ func GetString(buf []byte, offsets Offsets, fieldID int) string {
 	if !ok {
 		return ``
 	}
-	len, lenSize := binary.Uvarint(buf[offset:])
-	offset += uint64(lenSize)
-	data := buf[offset : offset+len]
+	data := bytesAt(buf, offset)
 	return *(*string)(unsafe.Pointer(&data))
 }
 
@@ -163,9 +161,21 @@ func GetBytes(buf []byte, offsets Offsets, fieldID int) []byte {
 	if !ok {
 		return nil
 	}
-	len, lenSize := binary.Uvarint(buf[offset:])
+	return bytesAt(buf, offset)
+}
+
+// bytesAt returns the length-prefixed data at the given offset or nil if there
+// isn't any, which happens if the field was encoded with some other wire type.
+func bytesAt(buf []byte, offset uint64) []byte {
+	dataLen, lenSize := binary.Uvarint(buf[offset:])
+	if lenSize <= 0 {
+		return nil
+	}
 	offset += uint64(lenSize)
-	return buf[offset : offset+len]
+	if dataLen > uint64(len(buf))-offset {
+		return nil
+	}
+	return buf[offset : offset+dataLen]
 }
 
 // SetBool set an encoded bool field with the given field id, overwriting an
@@ -454,8 +464,8 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 			// For a repeated field, set the offset if this is the first one we've
 			// found but don't overwrite an earlier offset. The repeated field
 			// iterator will start from this offset and re-parse the rest of the
-			// message to find the rest of them.
-			if _, ok := offsets.Get(fieldID); !ok {
+			// message to find the rest of them. It only handles bytes.
+			if _, ok := offsets.Get(fieldID); !ok && typ == proto.WireBytes {
 				offsets.Set(fieldID, uint64(idx))
 			}
 		} else {
@@ -491,7 +501,7 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 		idx += size
 		f := int(tag >> 3)
 		typ := tag & 0x7
-		if f == field {
+		if f == field && typ == proto.WireBytes {
 			return buf[idx:], msg
 		}
 		s, err := fieldDataSize(typ, buf[idx:])
-- 
2.43.0


From 4ebf3cb4778fdd7eed5bb368d4bdd9975e1a9293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 04/12] fix: appending to a returned value doesn't overwrite
 the fields after it

This includes setting a field on a submessage, which is an append to the slice
of the outer message it was decoded from.
---
 zeropb.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 6977929..82132eb 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -175,7 +175,9 @@ func bytesAt(buf []byte, offset uint64) []byte {
 	if dataLen > uint64(len(buf))-offset {
 		return nil
 	}
-	return buf[offset : offset+dataLen]
+	end := offset + dataLen
+	// Cap it so an append to what's returned can't overwrite the next field.
+	return buf[offset:end:end]
 }
 
 // SetBool set an encoded bool field with the given field id, overwriting an
@@ -495,7 +497,8 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 	// NB: FindNextField doesn't do the same bounds checking that Decode does
 	// because Decode has already validated the input.
 	msgLen, lenSize := binary.Uvarint(buf)
-	msg := buf[lenSize : lenSize+int(msgLen)]
+	msgEnd := lenSize + int(msgLen)
+	msg := buf[lenSize:msgEnd:msgEnd]
 	for idx := lenSize + int(msgLen); idx < len(buf); {
 		tag, size := binary.Uvarint(buf[idx:])
 		idx += size
-- 
2.43.0


From 4a24353f3c0eba7ead4af461fc257b07b3ab36d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 05/12] fix: a value read from a message can be used to set one
 of its fields

If the field was already set to a value of another length, the bytes after it
were moved before the new value was copied, and the new value with them.
---
 zeropb.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/zeropb.go b/zeropb.go
index 82132eb..79790b5 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -367,6 +367,12 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 			return
 		}
 
+		if overlaps(*buf, val) {
+			// The new value was read from this message, don't let it change while
+			// we're moving things around.
+			val = append([]byte(nil), val...)
+		}
+
 		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)
 		// TODO(dan): sanity check that we got the same tag bytes here?
 		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
@@ -400,6 +406,15 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	*buf = append(*buf, val...)
 }
 
+// overlaps returns whether a and b share any memory.
+func overlaps(a, b []byte) bool {
+	if len(a) == 0 || len(b) == 0 {
+		return false
+	}
+	aBegin, bBegin := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
+	return aBegin < bBegin+uintptr(len(b)) && bBegin < aBegin+uintptr(len(a))
+}
+
 func appendSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byte) {
 	var scratch [binary.MaxVarintLen64]byte
 
-- 
2.43.0


From 179aefddbf9307e0bddcefcfb08d05e28a9a0dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 06/12] fix: setting a decoded field works when its tag isn't
 the expected one

The old value is removed along with its tag, the length of which was assumed. If
it was encoded differently (a decoder must accept a varint with superfluous
bytes) the message was corrupted.
---
 zeropb.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 79790b5..b9de425 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -343,7 +343,7 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	tag := uint64(fieldID<<3 | typ)
 	tagLen := binary.PutUvarint(scratch[:], tag)
 
-	if offset, ok := offsets.Get(fieldID); ok {
+	if offset, ok := offsets.Get(fieldID); ok && hasTag(*buf, offset, scratch[:tagLen]) {
 		var oldLen int
 		switch typ {
 		case proto.WireVarint:
@@ -374,7 +374,6 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 		}
 
 		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)
-		// TODO(dan): sanity check that we got the same tag bytes here?
 		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
 		removedBytes := fieldEnd - fieldBegin
 		(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]
@@ -406,6 +405,17 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	*buf = append(*buf, val...)
 }
 
+// hasTag returns whether the field at the given offset has exactly this tag. It
+// doesn't if it was decoded from a message that encoded it with another wire type
+// or the tag in more bytes than necessary. The old value can then be left as is,
+// because only the last one counts.
+func hasTag(buf []byte, offset uint64, tag []byte) bool {
+	if offset < uint64(len(tag)) {
+		return false
+	}
+	return string(buf[offset-uint64(len(tag)):offset]) == string(tag)
+}
+
 // overlaps returns whether a and b share any memory.
 func overlaps(a, b []byte) bool {
 	if len(a) == 0 || len(b) == 0 {
-- 
2.43.0


From a6ce58884648f8462f1490e040b10817750faba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 07/12] fix: SetString keeps the string alive while it's only
 referenced by a uintptr

The garbage collector could free it before it was copied.
---
 zeropb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zeropb.go b/zeropb.go
index b9de425..753c73d 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"math"
 	"reflect"
+	"runtime"
 	"unsafe"
 
 	"github.com/golang/protobuf/proto"
@@ -312,6 +313,8 @@ func SetString(buf *[]byte, offsets Offsets, fieldID int, x string) {
 		Len:  hdr.Len,
 		Cap:  hdr.Len,
 	}))
+	// The Data fields above are uintptrs, which don't keep x from being collected.
+	runtime.KeepAlive(x)
 	n := binary.PutUvarint(scratch[:], uint64(len(data)))
 	var valLen, val []byte = scratch[:n], data
 	setSingle(buf, offsets, fieldID, proto.WireBytes, valLen, val)
-- 
2.43.0


From 39e91f7e4af73042103bd95232bbbe6a5ddd1bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 08/12] fix: the protoc plugins exit with an error status when
 they fail

protoc takes a zero status as success and silently generated nothing.
---
 cmd/protoc-gen-text/main.go   | 1 +
 cmd/protoc-gen-zeropb/main.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cmd/protoc-gen-text/main.go b/cmd/protoc-gen-text/main.go
index 815ad11..369de75 100644
--- a/cmd/protoc-gen-text/main.go
+++ b/cmd/protoc-gen-text/main.go
@@ -29,5 +29,6 @@ func run() error {
 func main() {
 	if err := run(); err != nil {
 		fmt.Fprintf(os.Stderr, "%+v\n", err)
+		os.Exit(1)
 	}
 }
diff --git a/cmd/protoc-gen-zeropb/main.go b/cmd/protoc-gen-zeropb/main.go
index 2915585..97a5529 100644
--- a/cmd/protoc-gen-zeropb/main.go
+++ b/cmd/protoc-gen-zeropb/main.go
@@ -37,5 +37,6 @@ func run() error {
 func main() {
 	if err := run(); err != nil {
 		fmt.Fprintf(os.Stderr, "%+v\n", err)
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 3c00147851860ba894cb5f141a0875b8ef14366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:22 +0000
Subject: [PATCH 09/12] fix: a message may have several repeated fields with
 the same element type

---
 generate/generate.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/generate/generate.go b/generate/generate.go
index 865c09f..89446c7 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -98,6 +98,7 @@ func generateMessage(st *StringTree, indent StringTreeIndent, m DescriptorProto)
 	st.Write(indent.Next(), offsets, ".Clear()\n")
 	st.Write(indent, "}\n\n")
 
+	itGoTypes := map[string]struct{}{}
 	for _, f := range m.Field {
 		if f == nil {
 			continue
@@ -113,7 +114,13 @@ func generateMessage(st *StringTree, indent StringTreeIndent, m DescriptorProto)
 		case FieldDescriptorProto_LABEL_REPEATED:
 			switch f.GetType() {
 			case FieldDescriptorProto_TYPE_MESSAGE:
-				generateRepeatedMessageField(st, indent, messageGoType, *f)
+				itGoType := messageGoType + fieldToGoTypeMessage(f.GetTypeName()) + "Iterator"
+				if _, ok := itGoTypes[itGoType]; ok {
+					// Another field has elements of this type, too.
+					itGoType = messageGoType + fieldToGoTypeMessage(f.GetTypeName()) + toGoCase(f.GetName()) + "Iterator"
+				}
+				itGoTypes[itGoType] = struct{}{}
+				generateRepeatedMessageField(st, indent, messageGoType, itGoType, *f)
 			default:
 				// WIP implement repeated simple fields
 				continue
@@ -158,11 +165,10 @@ func generateMessageField(
 }
 
 func generateRepeatedMessageField(
-	st *StringTree, indent StringTreeIndent, messageGoType string, f FieldDescriptorProto,
+	st *StringTree, indent StringTreeIndent, messageGoType, itGoType string, f FieldDescriptorProto,
 ) {
 	fieldGoName := toGoCase(f.GetName())
 	fieldGoType := fieldToGoTypeMessage(f.GetTypeName())
-	itGoType := messageGoType + fieldGoType + "Iterator"
 
 	st.Write(indent, "type ", itGoType, " []byte\n\n")
 
-- 
2.43.0


From 7b4c4e44992e6a8f7104f597e7c5a6e20ed341e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:16 +0000
Subject: [PATCH 10/12] fix: the code generated for a file without messages
 compiles

---
 generate/generate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index 89446c7..26745d5 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -40,7 +40,9 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 	st.Write(indent, "// Code generated by protoc-gen-zeropb. DO NOT EDIT.\n\n")
 	// TODO(dan): Use the go package if it's set.
 	st.Write(indent, "package ", req.GetPackage(), "\n\n")
-	st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
+	if len(req.MessageType) > 0 {
+		st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
+	}
 
 	for _, m := range req.MessageType {
 		if m == nil {
-- 
2.43.0


From 0d4758e643cd892f45d683eb0598dcab02b5aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:26 +0000
Subject: [PATCH 11/12] fix: Decode doesn't mistake field ids that don't fit in
 an int for others

On 32-bit platforms a field id from 1<<31 on became negative and Decode panicked,
one from 1<<32 on was taken for a small one.
---
 zeropb.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 753c73d..f3c7720 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -479,6 +479,11 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 
 		fieldID := int(tag >> 3)
 		typ := tag & 0x7
+		if tag>>3 > math.MaxInt32 {
+			// Doesn't fit in an int everywhere. Schemas don't have fields this large,
+			// so it only matters that it's not mistaken for one that is in ours.
+			fieldID = math.MaxInt32
+		}
 		if fieldID == 0 {
 			// Field ids start at 1, so no encoder writes this. The most likely
 			// source is a zero-filled region.
@@ -530,9 +535,9 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 	for idx := lenSize + int(msgLen); idx < len(buf); {
 		tag, size := binary.Uvarint(buf[idx:])
 		idx += size
-		f := int(tag >> 3)
+		f := tag >> 3
 		typ := tag & 0x7
-		if f == field && typ == proto.WireBytes {
+		if f == uint64(field) && typ == proto.WireBytes {
 			return buf[idx:], msg
 		}
 		s, err := fieldDataSize(typ, buf[idx:])
-- 
2.43.0


From 59e15017757a78edf11d2f251003f4b0ffdeb8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:36 +0000
Subject: [PATCH 12/12] fix: Decode rejects field ids that don't fit in an int

Skipping them in Decode was not enough, FindNextField took them for others.
---
 zeropb.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index f3c7720..dd9e77b 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -479,14 +479,10 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 
 		fieldID := int(tag >> 3)
 		typ := tag & 0x7
-		if tag>>3 > math.MaxInt32 {
-			// Doesn't fit in an int everywhere. Schemas don't have fields this large,
-			// so it only matters that it's not mistaken for one that is in ours.
-			fieldID = math.MaxInt32
-		}
-		if fieldID == 0 {
+		if fieldID == 0 || tag>>3 > math.MaxInt32 {
 			// Field ids start at 1, so no encoder writes this. The most likely
-			// source is a zero-filled region.
+			// source is a zero-filled region. They also always fit in an int, even
+			// on 32-bit platforms.
 			return errors.Errorf(`illegal tag: %d`, tag)
 		}
 		// fmt.Printf("tag=%x field=%d typ=%d idx=%d\n", tag, fieldID, typ, idx)
@@ -535,9 +531,9 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 	for idx := lenSize + int(msgLen); idx < len(buf); {
 		tag, size := binary.Uvarint(buf[idx:])
 		idx += size
-		f := tag >> 3
+		f := int(tag >> 3)
 		typ := tag & 0x7
-		if f == uint64(field) && typ == proto.WireBytes {
+		if f == field && typ == proto.WireBytes {
 			return buf[idx:], msg
 		}
 		s, err := fieldDataSize(typ, buf[idx:])
-- 
2.43.0

