From c75edcd88fec6dc2af6d229836d31463cb6a5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 01/34] fix: decode non-negative zigzag integers

A ZIGZAG item with an even payload denotes a non-negative number; the
decoder returned a negative one for it.
---
 Go/sereal/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index fb9c6e6..5e7bce7 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -479,7 +479,7 @@ func (d *Decoder) decodeVarint(by []byte, idx int) (int, int, error) {
 
 func (d *Decoder) decodeZigzag(by []byte, idx int) (int, int, error) {
 	i, sz, err := varintdecode(by[idx:])
-	return int(-(1 + (uint64(i) >> 1))), idx + sz, err
+	return int(uint64(i)>>1) ^ -(i & 1), idx + sz, err
 }
 
 func (d *Decoder) decodeFloat(by []byte, idx int) (float32, int, error) {
-- 
2.43.0


From 5608aeda03d1504d0ff9cc471ba76a55d1f161a2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 02/34] fix: encode values of named integer types

Named unsigned types failed to encode, and negative values of named types
other than int kind were written as huge unsigned numbers.
---
 Go/sereal/encode.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 57b4a39..7b67174 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -498,9 +498,11 @@ func (e *Encoder) encodeViaReflection(b []byte, rv reflect.Value, isKeyOrClass b
 			b = append(b, typeFALSE)
 		}
 
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
-		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		b = e.encodeInt(b, rk, rv.Int())
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		b = e.encodeInt(b, reflect.Int, rv.Int())
+
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		b = e.encodeInt(b, reflect.Uint, int64(rv.Uint()))
 
 	case reflect.Float32:
 		b = e.encodeFloat(b, float32(rv.Float()))
-- 
2.43.0


From 86ed582fb5b7395a7961fb7ab2222a494b8d1e4b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 03/34] fix: reject impossible uncompressed lengths in zlib
 documents

The claimed length was used as an allocation size unchecked, so a crafted
document made Unmarshal and DecompressDocument panic with a runtime error.
---
 Go/sereal/zlib.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Go/sereal/zlib.go b/Go/sereal/zlib.go
index 989dc27..2e68acd 100644
--- a/Go/sereal/zlib.go
+++ b/Go/sereal/zlib.go
@@ -49,6 +49,9 @@ func (c ZlibCompressor) decompress(d, buf []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if uln < 0 || uln > math.MaxInt32 {
+		return nil, ErrCorrupt{errBadOffset}
+	}
 	buf = buf[usz:]
 
 	// Read the claimed length of the compressed document
-- 
2.43.0


From 5fc55169c65850166be6b0ce34d5f72b0b21ce51 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 04/34] fix: do not read a header flag byte that is not there

A document whose header suffix length is a padded zero, or is negative when
read as an int, made UnmarshalHeader index past the end of the document.
---
 Go/sereal/decode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 5e7bce7..c116ca6 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -56,6 +56,10 @@ func readHeader(b []byte) (serealHeader, error) {
 		return serealHeader{}, err
 	}
 
+	if ln < 0 {
+		return serealHeader{}, ErrCorrupt{errBadOffset}
+	}
+
 	h.suffixSize = ln + sz
 	h.suffixStart = headerSize + sz
 
@@ -201,7 +205,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		return ErrCorrupt{errBadOffset}
 	}
 
-	if vheader != nil && header.suffixSize != 1 {
+	if vheader != nil && header.suffixStart < bodyStart {
 		d.tracked = make(map[int]reflect.Value)
 		defer func() { d.tracked = nil }()
 
-- 
2.43.0


From 11649ffa37704f7ab02401bf7892d821922990b2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 05/34] fix: resolve offsets in header metadata relative to the
 metadata

Header metadata is a self-contained body with 1-based offsets, which is
how the encoder writes it; the decoder resolved COPY and REFP offsets
against the start of the document.
---
 Go/sereal/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index c116ca6..57e97bf 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -217,9 +217,9 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		header.suffixFlags = b[header.suffixStart]
 		if header.suffixFlags&1 == 1 {
 			if ptr, ok := vheader.(*interface{}); ok && *ptr == nil {
-				_, err = d.decode(b[:bodyStart], header.suffixStart+1, ptr)
+				_, err = d.decode(b[header.suffixStart:bodyStart], 1, ptr)
 			} else {
-				_, err = d.decodeViaReflection(b[:bodyStart], header.suffixStart+1, headerValue.Elem())
+				_, err = d.decodeViaReflection(b[header.suffixStart:bodyStart], 1, headerValue.Elem())
 			}
 		}
 	}
-- 
2.43.0


From cac9a3a7fbe3dfa3ac1085fbe511a81ed2399845 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 06/34] fix: reset the COPY depth for every document

When a decode failed by panicking inside a COPY, the same Decoder rejected
all COPY tags of later documents.
---
 Go/sereal/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 57e97bf..e55fe53 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -189,6 +189,9 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		}
 	}()
 
+	// a previous call may have been aborted by a panic inside a COPY
+	d.copyDepth = 0
+
 	header, err := checkHeader(b)
 	if err != nil {
 		return err
-- 
2.43.0


From 676c27194fdc7511632033a764418a036e40bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 07/34] fix: do not report success when a decode hook panics

A panic with a value that is neither a string nor an error was recovered
and dropped, and Unmarshal returned nil.
---
 Go/sereal/decode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index e55fe53..388c81b 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -185,6 +185,8 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 				err = errors.New(t)
 			case error:
 				err = t
+			default:
+				err = fmt.Errorf("%v", t)
 			}
 		}
 	}()
-- 
2.43.0


From 4c3013ca33802835682c6010ad5c912385936df8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 08/34] fix: copy decoded regexps out of the document buffer

---
 Go/sereal/decode.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 388c81b..6eafdea 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -689,8 +689,7 @@ func (d *Decoder) decodeRegexp(by []byte, idx int) (*PerlRegexp, int, error) {
 		return nil, 0, err
 	}
 
-	// TODO perhaps, copy values
-	return &PerlRegexp{pattern, modifiers}, idx, nil
+	return &PerlRegexp{append([]byte{}, pattern...), append([]byte{}, modifiers...)}, idx, nil
 }
 
 /********************************************************************
-- 
2.43.0


From a4b28d929398099fa86c8407bc17ef9c5dd7f539 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 09/34] fix: reject class name references that point forward

---
 Go/sereal/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 6eafdea..8ebd90f 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1092,6 +1092,9 @@ func (d *Decoder) decodeObjectViaReflection(by []byte, idx int, ptr reflect.Valu
 		if err != nil {
 			return 0, err
 		}
+		if offs < 0 || offs >= idx {
+			return 0, ErrCorrupt{errBadOffset}
+		}
 		idx += sz
 		className, _, err = d.decodeStringish(by, offs)
 	}
@@ -1127,6 +1130,9 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 		if err != nil {
 			return 0, err
 		}
+		if offs < 0 || offs >= idx {
+			return 0, ErrCorrupt{errBadOffset}
+		}
 		idx += sz
 		className, _, err = d.decodeStringish(by, offs)
 		if err != nil {
-- 
2.43.0


From cb38cff28cd563b75c8e1a5b6a14c1ecefbc9e7c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 10/34] fix: instantiate registered non-pointer unmarshaler
 types

The result of reflect.New is not addressable, so decoding a frozen object
of a type registered by value always failed.
---
 Go/sereal/decode.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 8ebd90f..b330b2f 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1327,8 +1327,7 @@ func instantiateZero(typ reflect.Type) reflect.Value {
 		return reflect.New(typ.Elem())
 	}
 
-	v := reflect.New(typ)
-	return v.Addr()
+	return reflect.New(typ)
 }
 
 // DecompressDocument changes the compression type of a Sereal document without performing a full re-serialization
-- 
2.43.0


From a30d58c7dc98327bee8f3a62ad1da829c59e8963 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 11/34] fix: do not panic when a document decompresses to
 nothing

hasSameBuffer needs slices with a capacity.
---
 Go/sereal/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index b330b2f..2e83297 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1363,7 +1363,7 @@ func DecompressDocument(dst, b []byte) (r []byte, err error) {
 			return nil, err
 		}
 
-		if len(dst) > 0 && hasSameBuffer(decompBody, dst) {
+		if len(dst) > 0 && cap(decompBody) > 0 && hasSameBuffer(decompBody, dst) {
 			copy(dst[0:bodyStart], b[0:bodyStart])
 			dst = dst[0 : bodyStart+len(decompBody)]
 		} else {
-- 
2.43.0


From 28f9beb18854bbdcbd29d48096c350082634a572 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 12/34] fix: label incremental snappy bodies of v1 documents as
 such

A v1 encoder with an incremental SnappyCompressor wrote the length prefix
but labelled the body as non-incremental, which no decoder can read.
---
 Go/sereal/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 7b67174..2fdc812 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -168,7 +168,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 			if e.version > 1 && !c.Incremental {
 				return nil, errors.New("non-incremental snappy compression only valid for v1 documents")
 			}
-			if e.version == 1 {
+			if !c.Incremental {
 				doctype = serealSnappy
 			} else {
 				doctype = serealSnappyIncremental
-- 
2.43.0


From 6424e5f9050dccac4a5e15337aeb652aff08bf42 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 13/34] fix: make Marshal safe for concurrent use

All calls shared one Encoder and so one unsynchronised struct tag cache.
---
 Go/sereal/encode.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 2fdc812..48ae4ca 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -62,11 +62,9 @@ func NewEncoderV3() *Encoder {
 	}
 }
 
-var defaultEncoder = NewEncoderV3()
-
 // Marshal encodes body with the default encoder
 func Marshal(body interface{}) ([]byte, error) {
-	return defaultEncoder.MarshalWithHeader(nil, body)
+	return NewEncoderV3().MarshalWithHeader(nil, body)
 }
 
 // Marshal returns the Sereal encoding of body
-- 
2.43.0


From b088993ae73ca5dea2b8578ce1f0445092fd03b0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 14/34] fix: refuse map keys that are not strings

Hash keys must be strings: other keys were written as their own items, or as
"<int Value>" with PerlCompat, and the document could not be decoded.
---
 Go/sereal/encode.go | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 48ae4ca..8e86565 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -556,24 +556,19 @@ func (e *Encoder) encodeMap(by []byte, m reflect.Value, isRefNext bool, state *m
 	by = append(by, typeHASH)
 	by = varint(by, uint(len(keys)))
 
-	if e.PerlCompat {
-		var err error
-		for _, k := range keys {
-			by = e.encodeString(by, k.String(), true, state.strTable)
-			if by, err = e.encode(by, m.MapIndex(k), false, false, state, remainingDepth); err != nil {
-				return by, err
-			}
+	var err error
+	for _, k := range keys {
+		name := k
+		if name.Kind() == reflect.Interface {
+			name = name.Elem()
+		}
+		if name.Kind() != reflect.String {
+			return nil, fmt.Errorf("no support for map keys of type '%s'", m.Type().Key())
 		}
-	} else {
-		var err error
-		for _, k := range keys {
-			if by, err = e.encode(by, k, true, false, state, remainingDepth); err != nil {
-				return by, err
-			}
 
-			if by, err = e.encode(by, m.MapIndex(k), false, false, state, remainingDepth); err != nil {
-				return by, err
-			}
+		by = e.encodeString(by, name.String(), true, state.strTable)
+		if by, err = e.encode(by, m.MapIndex(k), false, false, state, remainingDepth); err != nil {
+			return by, err
 		}
 	}
 
-- 
2.43.0


From bdb6c4efe4b3a9110fd61ec9f351baa887191bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 15/34] fix: do not mistake overlapping memory for shared
 pointers

The table of encoded pointers was keyed by address alone, so a pointer to the
first field of an encoded struct, or to a substring or subslice that starts at
the same address, was written as a reference to the other value. A pointer to
an interface holding a string failed to encode.
---
 Go/sereal/encode.go | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 8e86565..77eafd9 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -28,7 +28,16 @@ type Encoder struct {
 
 type marshalState struct {
 	strTable map[string]int
-	ptrTable map[uintptr]int
+	ptrTable map[ptrKey]int
+}
+
+// ptrKey identifies what a pointer, map, slice or string refers to. The address
+// alone does not: a struct and its first field, or a slice and a shorter slice
+// of the same array, share theirs.
+type ptrKey struct {
+	addr uintptr
+	typ  reflect.Type // of the pointee, map, slice or string
+	len  int          // of a slice or string, else -1
 }
 
 type compressor interface {
@@ -108,7 +117,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 	if header != nil && e.version >= 2 {
 		state := marshalState{
 			strTable: make(map[string]int),
-			ptrTable: make(map[uintptr]int),
+			ptrTable: make(map[ptrKey]int),
 		}
 
 		// this is both the flag byte (== "there is user data") and also a hack to make 1-based offsets work
@@ -129,7 +138,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 	remainingDepth := remainingRecursion(e.MaxRecursionDepth)
 	state := marshalState{
 		strTable: make(map[string]int),
-		ptrTable: make(map[uintptr]int),
+		ptrTable: make(map[ptrKey]int),
 	}
 
 	encBody := make([]byte, 0, e.ExpectedSize)
@@ -627,12 +636,12 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 		}
 	}
 
-	rvptr := rv.Pointer()
+	rvptr := ptrKey{rv.Pointer(), rv.Type().Elem(), -1}
 	rvptr2 := getPointer(rv.Elem())
 
 	offs, ok := state.ptrTable[rvptr]
 
-	if !ok && rvptr2 != 0 {
+	if !ok && rvptr2.addr != 0 {
 		offs, ok = state.ptrTable[rvptr2]
 		if ok {
 			rvptr = rvptr2
@@ -648,7 +657,7 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 
 		by = append(by, typeREFN)
 
-		if rvptr != 0 {
+		if rvptr.addr != 0 {
 			state.ptrTable[rvptr] = lenbOrig
 		}
 
@@ -658,7 +667,7 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 			return nil, err
 		}
 
-		if rvptr2 != 0 {
+		if rvptr2.addr != 0 {
 			// The thing this this points to starts one after the current pointer
 			state.ptrTable[rvptr2] = lenbOrig + 1
 		}
@@ -677,20 +686,25 @@ func varint(by []byte, n uint) []uint8 {
 	return append(by, byte(n))
 }
 
-func getPointer(rv reflect.Value) uintptr {
-	var rvptr uintptr
+func getPointer(rv reflect.Value) ptrKey {
+	var rvptr ptrKey
 
 	switch rv.Kind() {
-	case reflect.Map, reflect.Slice:
-		rvptr = rv.Pointer()
+	case reflect.Map:
+		rvptr = ptrKey{rv.Pointer(), rv.Type(), -1}
+	case reflect.Slice:
+		rvptr = ptrKey{rv.Pointer(), rv.Type(), rv.Len()}
 	case reflect.Interface:
 		// FIXME: still needed?
 		return getPointer(rv.Elem())
 	case reflect.Ptr:
-		rvptr = rv.Pointer()
+		rvptr = ptrKey{rv.Pointer(), rv.Type().Elem(), -1}
 	case reflect.String:
+		if !rv.CanAddr() {
+			break // inside an interface
+		}
 		ps := (*reflect.StringHeader)(unsafe.Pointer(rv.UnsafeAddr()))
-		rvptr = ps.Data
+		rvptr = ptrKey{ps.Data, rv.Type(), ps.Len}
 	}
 
 	return rvptr
-- 
2.43.0


From 829e3fad4c30b800d43462c5257ab1af5a795188 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 16/34] fix: check document headers before merging

---
 Go/sereal/merge.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index eca2046..18a1f0f 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -157,19 +157,27 @@ func (m *Merger) Append(b []byte) (int, error) {
 		return 0, errors.New("finished document")
 	}
 
-	docHeader, err := readHeader(b)
+	docHeader, err := checkHeader(b)
 	if err != nil {
 		return 0, err
 	}
 
+	bodyStart := headerSize + docHeader.suffixSize
+	if bodyStart > len(b) || bodyStart < 0 {
+		return 0, ErrCorrupt{errBadOffset}
+	}
+
 	doc := mergerDoc{
-		buf:        b[headerSize+docHeader.suffixSize:],
+		buf:        b[bodyStart:],
 		version:    int(docHeader.version),
 		startIdx:   0,
 		bodyOffset: -1, // 1-based offsets
 	}
 
 	decomp, err := documentDecompressor(docHeader.version, docHeader.doctype)
+	if err != nil {
+		return 0, err
+	}
 
 	if decomp != nil {
 		if doc.buf, err = decomp.decompress(nil, doc.buf); err != nil {
-- 
2.43.0


From fa40849645126675d5ffe10e7e9343fb2f947a61 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 17/34] fix: resolve offsets of merged documents

---
 Go/sereal/merge.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 18a1f0f..4912ff6 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -174,6 +174,10 @@ func (m *Merger) Append(b []byte) (int, error) {
 		bodyOffset: -1, // 1-based offsets
 	}
 
+	if docHeader.version == 1 {
+		doc.bodyOffset = -bodyStart // offsets are relative to the document start
+	}
+
 	decomp, err := documentDecompressor(docHeader.version, docHeader.doctype)
 	if err != nil {
 		return 0, err
@@ -326,7 +330,7 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 			if err != nil {
 				return err
 			}
-			if offset < 0 || offset >= idx {
+			if offset < doc.startIdx-doc.bodyOffset || offset >= idx-doc.bodyOffset {
 				return fmt.Errorf("tag %d refers to invalid offset: %d", tag, offset)
 			}
 
-- 
2.43.0


From 2602c8c6169f384abd8b9e7c6d236845b9e46d48 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 18/34] fix: refuse to merge truncated documents

---
 Go/sereal/merge.go | 47 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 4912ff6..d487100 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -308,13 +308,10 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 			if err != nil {
 				return err
 			}
-			idx += sz + ln + 1
-
-			if ln < 0 || ln > math.MaxUint32 {
+			if ln < 0 || ln > math.MaxInt32 {
 				return fmt.Errorf("bad size for string: %d", ln)
-			} else if idx > len(buf) {
-				return fmt.Errorf("truncated document, expect %d bytes", len(buf)-idx)
 			}
+			idx += sz + ln + 1
 
 		case tag == typeARRAY, tag == typeHASH:
 			_, sz, err := varintdecode(buf[idx+1:])
@@ -353,6 +350,10 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 		default:
 			return fmt.Errorf("unknown tag: %d (0x%x) at offset %d", tag, tag, idx)
 		}
+
+		if idx > len(buf) {
+			return ErrTruncated
+		}
 	}
 
 	for idx := range doc.trackTable {
@@ -372,7 +373,7 @@ func (m *Merger) mergeItems(doc *mergerDoc) error {
 	if err != nil {
 		return err
 	}
-	if expElements < 0 || expElements > math.MaxUint32 {
+	if expElements < 0 || expElements > math.MaxInt32-m.length {
 		return fmt.Errorf("bad amount of expected elements: %d", expElements)
 	}
 
@@ -436,18 +437,30 @@ LOOP:
 			didx += sz + 1
 
 		case tag == typeFLOAT:
+			if didx+5 > len(dbuf) {
+				return ErrTruncated
+			}
 			mbuf = append(mbuf, dbuf[didx:didx+5]...)
 			didx += 5 // 4 bytes + tag
 
 		case tag == typeDOUBLE:
+			if didx+9 > len(dbuf) {
+				return ErrTruncated
+			}
 			mbuf = append(mbuf, dbuf[didx:didx+9]...)
 			didx += 9 // 8 bytes + tag
 
 		case tag == typeLONG_DOUBLE:
+			if didx+17 > len(dbuf) {
+				return ErrTruncated
+			}
 			mbuf = append(mbuf, dbuf[didx:didx+17]...)
 			didx += 17 // 16 bytes + tag
 
 		case tag == typeSHORT_BINARY_0+1:
+			if didx+2 > len(dbuf) {
+				return ErrTruncated
+			}
 			mbuf = append(mbuf, dbuf[didx:didx+2]...)
 			didx += 2
 
@@ -467,7 +480,7 @@ LOOP:
 			}
 
 			length := sz + ln + 1
-			if ln < 0 || ln > math.MaxUint32 {
+			if ln < 0 || ln > math.MaxInt32 {
 				return fmt.Errorf("bad size for string: %d", ln)
 			} else if didx+length > len(dbuf) {
 				return fmt.Errorf("truncated document, expect %d bytes", len(dbuf)-didx-length)
@@ -516,7 +529,7 @@ LOOP:
 				return err
 
 			}
-			if ln < 0 {
+			if ln < 0 || ln > math.MaxInt32 || (tag == typeHASH && ln > math.MaxInt32/2) {
 				return errors.New("bad array or hash length")
 			}
 
@@ -600,15 +613,21 @@ LOOP:
 		}
 	}
 
+	// every container must have got all its elements
+	for _, left := range stack {
+		if left&^hashKeysValuesFlag != 0 {
+			return ErrTruncated
+		}
+	}
+
 	m.length += expElements
 	m.buf = mbuf
 	return nil
 }
 
 func (m *Merger) expectedElements(b []byte) (int, int, error) {
-	if m.KeepFlat {
+	if m.KeepFlat && len(b) > 0 {
 		tag0 := b[0] &^ trackFlag
-		tag1 := b[1] &^ trackFlag
 
 		switch m.TopLevelElement {
 		case TopLevelArray:
@@ -618,7 +637,7 @@ func (m *Merger) expectedElements(b []byte) (int, int, error) {
 			}
 
 		case TopLevelArrayRef:
-			if tag0 == typeREFN && tag1 == typeARRAY {
+			if tag0 == typeREFN && len(b) > 1 && b[1]&^trackFlag == typeARRAY {
 				ln, sz, err := varintdecode(b[2:])
 				return ln, sz + 2, err
 			} else if tag0 >= typeARRAYREF_0 && tag0 < typeARRAYREF_0+16 {
@@ -635,6 +654,10 @@ func isShallowStringish(tag byte) bool {
 }
 
 func readString(buf []byte) (int, []byte, error) {
+	if len(buf) == 0 {
+		return 0, nil, ErrTruncated
+	}
+
 	tag := buf[0]
 	tag &^= trackFlag
 
@@ -654,7 +677,7 @@ func readString(buf []byte) (int, []byte, error) {
 	}
 
 	offset++ // respect tag itself
-	if ln < 0 || ln > math.MaxUint32 {
+	if ln < 0 || ln > math.MaxInt32 {
 		return 0, nil, fmt.Errorf("bad size for string: %d", ln)
 	} else if offset+ln > len(buf) {
 		return 0, nil, fmt.Errorf("truncated document, expect %d bytes", len(buf)-ln-offset)
-- 
2.43.0


From aabb8932cefea7be199a9098213ace43adeecf11 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 19/34] fix: keep track flags where they are while merging

---
 Go/sereal/merge.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index d487100..c7cdc4f 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -331,6 +331,11 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 				return fmt.Errorf("tag %d refers to invalid offset: %d", tag, offset)
 			}
 
+			target := buf[offset+doc.bodyOffset]
+			if (tag == typeREFP || tag == typeALIAS) && target&trackFlag == 0 {
+				return fmt.Errorf("tag %d refers to untracked offset: %d", tag, offset)
+			}
+
 			doc.trackTable[offset] = -1
 			idx += sz + 1
 
@@ -410,7 +415,8 @@ LOOP:
 		// The trick with stack[level] % 2 == 0 works because stack[level] for hashes is always even at
 		// the beggining (for each item in hash we expect key and value). In practise it means,
 		// that if stack[level] is even - a key is being processed, if stack[level] is odd - value is being processed
-		dedupString := m.DedupeStrings || ((stack[level]&hashKeysValuesFlag) == hashKeysValuesFlag && stack[level]%2 == 0)
+		// Referenced items have to stay where they are.
+		dedupString := dbuf[didx]&trackFlag == 0 && (m.DedupeStrings || ((stack[level]&hashKeysValuesFlag) == hashKeysValuesFlag && stack[level]%2 == 0))
 
 		//fmt.Printf("0x%x (0x%x) at didx: %d (rlt: %d) len(dbuf): %d\n", tag, dbuf[didx], didx, didx-doc.bodyOffset, len(dbuf))
 		//fmt.Printf("level: %d, value: %d len: %d\n", level, stack[level], len(stack))
@@ -517,9 +523,7 @@ LOOP:
 			mbuf = appendTagVarint(mbuf, dbuf[didx], uint(targetOffset))
 			didx += sz + 1
 
-			if tag == typeALIAS || tag == typeREFP {
-				mbuf[targetOffset] |= trackFlag
-			} else if tag == typeOBJECTV || tag == typeOBJECTV_FREEZE {
+			if tag == typeOBJECTV || tag == typeOBJECTV_FREEZE {
 				stack = append(stack, 1)
 			}
 
@@ -579,9 +583,9 @@ LOOP:
 			length := offset + len(str) + 1 // respect typeOBJECT tag
 			if savedOffset, ok := m.objTable[string(str)]; ok {
 				if tag == typeOBJECT {
-					mbuf = appendTagVarint(mbuf, typeOBJECTV, uint(savedOffset))
+					mbuf = appendTagVarint(mbuf, typeOBJECTV|dbuf[didx]&trackFlag, uint(savedOffset))
 				} else {
-					mbuf = appendTagVarint(mbuf, typeOBJECTV_FREEZE, uint(savedOffset))
+					mbuf = appendTagVarint(mbuf, typeOBJECTV_FREEZE|dbuf[didx]&trackFlag, uint(savedOffset))
 				}
 
 				mrgRelativeIdx = savedOffset
-- 
2.43.0


From 036f92ae5a7ceb4914a3a395d5424653bacf8954 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 20/34] fix: merge documents with references to class names

---
 Go/sereal/merge.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index c7cdc4f..95c10c1 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -399,6 +399,11 @@ LOOP:
 
 		docRelativeIdx := didx - doc.bodyOffset
 		mrgRelativeIdx := len(mbuf) - m.bodyOffset
+
+		// skip references to places where no item starts
+		for len(doc.trackIdxs) > 0 && doc.trackIdxs[0] < docRelativeIdx {
+			doc.trackIdxs = doc.trackIdxs[1:]
+		}
 		trackme := len(doc.trackIdxs) > 0 && doc.trackIdxs[0] == docRelativeIdx
 
 		level := len(stack) - 1
@@ -581,21 +586,24 @@ LOOP:
 			}
 
 			length := offset + len(str) + 1 // respect typeOBJECT tag
+			// +1 because we should refer to string tag, not object tag
+			classOffset := mrgRelativeIdx + 1
 			if savedOffset, ok := m.objTable[string(str)]; ok {
 				if tag == typeOBJECT {
 					mbuf = appendTagVarint(mbuf, typeOBJECTV|dbuf[didx]&trackFlag, uint(savedOffset))
 				} else {
 					mbuf = appendTagVarint(mbuf, typeOBJECTV_FREEZE|dbuf[didx]&trackFlag, uint(savedOffset))
 				}
-
-				mrgRelativeIdx = savedOffset
+				classOffset = savedOffset
 			} else {
-				// +1 because we should refer to string tag, not object tag
-				mrgRelativeIdx++
-				m.objTable[string(str)] = mrgRelativeIdx
+				m.objTable[string(str)] = classOffset
 				mbuf = append(mbuf, dbuf[didx:didx+length]...)
 			}
 
+			if _, ok := doc.trackTable[docRelativeIdx+1]; ok {
+				doc.trackTable[docRelativeIdx+1] = classOffset
+			}
+
 			// parse <ITEM-TAG>
 			stack = append(stack, 1)
 			didx += length
-- 
2.43.0


From bf25c6c9f7d1fb0b2ba0a75e94a58ffefe24bc5a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 21/34] fix: keep string types apart while merging

---
 Go/sereal/merge.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 95c10c1..8a74e5e 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -24,6 +24,7 @@ const hashKeysValuesFlag = uint32(1 << 31)
 type Merger struct {
 	buf        []byte
 	strTable   map[string]int
+	utfTable   map[string]int
 	objTable   map[string]int
 	version    int
 	length     int
@@ -102,6 +103,7 @@ func (m *Merger) initMerger() error {
 
 	// initialize internal fields
 	m.strTable = make(map[string]int)
+	m.utfTable = make(map[string]int)
 	m.objTable = make(map[string]int)
 
 	if m.ExpectedSize > 0 {
@@ -498,12 +500,18 @@ LOOP:
 			}
 
 			if dedupString {
+				// binary and text strings are different values
+				table := m.strTable
+				if tag == typeSTR_UTF8 {
+					table = m.utfTable
+				}
+
 				val := dbuf[didx+sz+1 : didx+length]
-				if savedOffset, ok := m.strTable[string(val)]; ok {
+				if savedOffset, ok := table[string(val)]; ok {
 					mbuf = appendTagVarint(mbuf, typeCOPY, uint(savedOffset))
 					mrgRelativeIdx = savedOffset
 				} else {
-					m.strTable[string(val)] = mrgRelativeIdx
+					table[string(val)] = mrgRelativeIdx
 					mbuf = append(mbuf, dbuf[didx:didx+length]...)
 				}
 			} else {
-- 
2.43.0


From 087d649d013cdebd562470fb837d4e9cf642d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 22/34] fix: forget strings of documents that failed to merge

---
 Go/sereal/merge.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 8a74e5e..502a39c 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -209,6 +209,7 @@ func (m *Merger) Append(b []byte) (int, error) {
 	// second pass: do the work
 	if err := m.mergeItems(&doc); err != nil {
 		m.buf = m.buf[0:lastElementOffset] // remove appended stuff
+		m.forgetOffsets(lastElementOffset - m.bodyOffset)
 		return 0, err
 	}
 
@@ -645,6 +646,17 @@ LOOP:
 	return nil
 }
 
+// forgetOffsets drops saved strings and class names starting with offset
+func (m *Merger) forgetOffsets(offset int) {
+	for _, table := range []map[string]int{m.strTable, m.utfTable, m.objTable} {
+		for str, savedOffset := range table {
+			if savedOffset >= offset {
+				delete(table, str)
+			}
+		}
+	}
+}
+
 func (m *Merger) expectedElements(b []byte) (int, int, error) {
 	if m.KeepFlat && len(b) > 0 {
 		tag0 := b[0] &^ trackFlag
-- 
2.43.0


From 484e70a466ec45278fd1ac687768fecdc8bc885c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 23/34] fix: do not overrun the buffer when compressing merged
 documents

---
 Go/sereal/merge.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 502a39c..9c45542 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -227,35 +227,36 @@ func (m *Merger) Finish() ([]byte, error) {
 		binary.PutUvarint(m.buf[m.lenOffset:], uint64(m.length))
 
 		if m.Compression != nil && (m.CompressionThreshold == 0 || len(m.buf) >= m.CompressionThreshold) {
-			compressed, err := m.Compression.compress(m.buf[m.bodyOffset+1:])
-			if err != nil {
-				return m.buf, err
-			}
-
-			// TODO think about some optimizations here
-			copy(m.buf[m.bodyOffset+1:], compressed)
-			m.buf = m.buf[:len(compressed)+m.bodyOffset+1]
-
 			// verify compressor, there was little point in veryfing compressor in initMerger()
 			// because use can change it meanwhile
+			var doctype documentType
 			switch comp := m.Compression.(type) {
 			case SnappyCompressor:
 				if !comp.Incremental {
 					return nil, errors.New("non-incremental snappy compression is not supported")
 				}
 
-				m.buf[4] |= byte(serealSnappyIncremental) << 4
+				doctype = serealSnappyIncremental
 
 			case ZlibCompressor:
 				if m.version < 3 {
 					return nil, errors.New("zlib compression only valid for v3 documents and up")
 				}
 
-				m.buf[4] |= byte(serealZlib) << 4
+				doctype = serealZlib
 
 			default:
 				return nil, errors.New("unknown compressor")
 			}
+
+			compressed, err := m.Compression.compress(m.buf[m.bodyOffset+1:])
+			if err != nil {
+				return m.buf, err
+			}
+
+			// TODO think about some optimizations here
+			m.buf = append(m.buf[:m.bodyOffset+1], compressed...)
+			m.buf[4] |= byte(doctype) << 4
 		}
 	}
 
-- 
2.43.0


From 8b1aedb72fdbeec9f9bf3974d0e4cca78fd67d0b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 24/34] fix: do not put COPY tags into copied items while
 merging

---
 Go/sereal/merge.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 9c45542..ba247d7 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -68,6 +68,9 @@ type mergerDoc struct {
 	version    int
 	startIdx   int // 0-based
 	bodyOffset int // 1-based
+
+	// COPY refers to something else than a string
+	copiesItems bool
 }
 
 // NewMerger returns a merger using the latest sereal version
@@ -340,6 +343,10 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 				return fmt.Errorf("tag %d refers to untracked offset: %d", tag, offset)
 			}
 
+			if tag == typeCOPY && !isShallowStringish(target&^trackFlag) {
+				doc.copiesItems = true
+			}
+
 			doc.trackTable[offset] = -1
 			idx += sz + 1
 
@@ -424,8 +431,8 @@ LOOP:
 		// The trick with stack[level] % 2 == 0 works because stack[level] for hashes is always even at
 		// the beggining (for each item in hash we expect key and value). In practise it means,
 		// that if stack[level] is even - a key is being processed, if stack[level] is odd - value is being processed
-		// Referenced items have to stay where they are.
-		dedupString := dbuf[didx]&trackFlag == 0 && (m.DedupeStrings || ((stack[level]&hashKeysValuesFlag) == hashKeysValuesFlag && stack[level]%2 == 0))
+		// Referenced items have to stay where they are, and copied items must not contain COPY tags.
+		dedupString := !doc.copiesItems && dbuf[didx]&trackFlag == 0 && (m.DedupeStrings || ((stack[level]&hashKeysValuesFlag) == hashKeysValuesFlag && stack[level]%2 == 0))
 
 		//fmt.Printf("0x%x (0x%x) at didx: %d (rlt: %d) len(dbuf): %d\n", tag, dbuf[didx], didx, didx-doc.bodyOffset, len(dbuf))
 		//fmt.Printf("level: %d, value: %d len: %d\n", level, stack[level], len(stack))
-- 
2.43.0


From d888d8e1a9f9c86a92044115c1b8a5c2a8b74bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 25/34] fix: allow COPY for keys and class names of copied
 values

---
 Go/sereal/decode.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 2e83297..15176d9 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -649,7 +649,8 @@ func (d *Decoder) decodeStringish(by []byte, idx int) ([]byte, int, error) {
 		idx += ln
 
 	case tag == typeCOPY:
-		if d.copyDepth > 0 {
+		// copied values may use COPY for class names and hash keys
+		if d.copyDepth > 1 {
 			return nil, 0, ErrCorrupt{errNestedCOPY}
 		}
 
@@ -662,9 +663,10 @@ func (d *Decoder) decodeStringish(by []byte, idx int) ([]byte, int, error) {
 		}
 		idx += sz
 
-		d.copyDepth++
+		copyDepth := d.copyDepth
+		d.copyDepth = 2
 		res, _, err = d.decodeStringish(by, offs)
-		d.copyDepth--
+		d.copyDepth = copyDepth
 		if err != nil {
 			return nil, 0, err
 		}
-- 
2.43.0


From 2715f4e58ee3e176c8b17cf7f04389319d764f27 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 26/34] fix: decoding into a map that a nested value has reset
 panicked

---
 Go/sereal/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 15176d9..09690f8 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -973,6 +973,10 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 					return 0, err
 				}
 
+				// a value decoded before may point to what holds this map and have reset it
+				if ptr.IsNil() {
+					ptr.Set(reflect.MakeMap(ptr.Type()))
+				}
 				ptr.SetMapIndex(keyValue, riface.Elem())
 			}
 
-- 
2.43.0


From bc335ca7223e709434322a7b44bd634f118fc5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 27/34] fix: a hook that panics with something other than an
 error or a string crashed the encoder

---
 Go/sereal/encode.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 77eafd9..28e8f97 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -90,10 +90,13 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 				panic(r)
 			}
 
-			if s, ok := r.(string); ok {
-				err = errors.New(s)
-			} else {
-				err = r.(error)
+			switch t := r.(type) {
+			case string:
+				err = errors.New(t)
+			case error:
+				err = t
+			default:
+				err = fmt.Errorf("%v", t)
 			}
 		}
 	}()
-- 
2.43.0


From e325944086ef492399d84fe5a812f78059158852 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 28/34] fix: merging an empty short string after REGEXP or
 OBJECT read past it

---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index ba247d7..11e5259 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -706,7 +706,7 @@ func readString(buf []byte) (int, []byte, error) {
 	}
 
 	var ln, offset int
-	if tag > typeSHORT_BINARY_0 {
+	if tag >= typeSHORT_BINARY_0 {
 		ln = int(tag & 0x1F) // get length from tag
 	} else {
 		var err error
-- 
2.43.0


From c221ea7676935f6a18b264db1146d6e07a441b28 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 29/34] fix: a merger with an expected size below the header
 size crashed

---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 11e5259..c65cd40 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -109,7 +109,7 @@ func (m *Merger) initMerger() error {
 	m.utfTable = make(map[string]int)
 	m.objTable = make(map[string]int)
 
-	if m.ExpectedSize > 0 {
+	if m.ExpectedSize > headerSize {
 		m.buf = make([]byte, headerSize, m.ExpectedSize)
 	} else {
 		m.buf = make([]byte, headerSize)
-- 
2.43.0


From cc84f4c52645d8fa125a8d0d681d878435e6a5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 30/34] fix: FREEZE objects could not be decoded with
 PerlCompat

---
 Go/sereal/decode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 09690f8..a5fefec 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1158,8 +1158,9 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 		return 0, ErrCorrupt{errFreezeNotRefnArray}
 	}
 
+	// skip REFN: PerlCompat would make a pointer of it
 	var iface interface{}
-	if idx, err = d.decode(by, idx, &iface); err != nil {
+	if idx, err = d.decode(by, idx+1, &iface); err != nil {
 		return 0, err
 	}
 
-- 
2.43.0


From e6409b94e2875020a0c7c3e5f7062c42f7f684fc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 31/34] fix: a reference to an earlier undef could not be
 decoded

---
 Go/sereal/decode.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index a5fefec..62ae5b1 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -291,6 +291,7 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 		tag = by[idx]
 	}
 
+	start := idx
 	trackme := (tag & trackFlag) == trackFlag
 	if trackme {
 		tag &^= trackFlag
@@ -470,6 +471,11 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 		return 0, fmt.Errorf("unknown tag byte: %d (0x%x)", int(tag), int(tag))
 	}
 
+	if trackme && err == nil && *ptr == nil {
+		// tell an item that is undef from one that is still being decoded
+		d.tracked[start] = reflect.ValueOf(new(interface{})).Elem()
+	}
+
 	//fmt.Printf("stop decode: tag %d (0x%x)\n", int(tag), int(tag))
 	return idx, err
 }
@@ -1057,7 +1063,10 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 	}
 
 	var res reflect.Value
-	if rv.Kind() == reflect.Ptr && rv.Elem().Kind() == reflect.Interface {
+	if rv.Kind() == reflect.Interface && rv.IsNil() && (!isREFP || d.DisableReferentialIntegrity) {
+		// the item is undef
+		res = rv
+	} else if rv.Kind() == reflect.Ptr && rv.Elem().Kind() == reflect.Interface {
 		// rv contains *interface{},
 		// i.e. it was saved in decode() path
 		// rv.Elem() will be an interface
-- 
2.43.0


From e1e254fd757f605aa37f01ffe9833c27b1e36513 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 32/34] fix: objects that contain references to themselves
 could not be decoded

---
 Go/sereal/decode.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 62ae5b1..c18a167 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -460,8 +460,13 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 		*ptr, idx, err = d.decodeRegexp(by, idx)
 
 	case tag == typeOBJECT, tag == typeOBJECTV:
-		rvPtr := reflect.ValueOf(ptr)
-		idx, err = d.decodeObjectViaReflection(by, idx, rvPtr.Elem(), tag == typeOBJECTV)
+		if d.PerlCompat {
+			rvPtr := reflect.ValueOf(ptr)
+			idx, err = d.decodeObjectViaReflection(by, idx, rvPtr.Elem(), tag == typeOBJECTV)
+		} else if _, idx, err = d.decodeClassName(by, idx, tag == typeOBJECTV); err == nil {
+			// in place, as the object may contain references to itself
+			idx, err = d.decode(by, idx, ptr)
+		}
 
 	case tag == typeOBJECT_FREEZE, tag == typeOBJECTV_FREEZE:
 		rvPtr := reflect.ValueOf(ptr)
@@ -1093,7 +1098,8 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 	return res, idx, nil
 }
 
-func (d *Decoder) decodeObjectViaReflection(by []byte, idx int, ptr reflect.Value, isObjectV bool) (int, error) {
+// decodeClassName reads the class name of an OBJECT or OBJECTV
+func (d *Decoder) decodeClassName(by []byte, idx int, isObjectV bool) ([]byte, int, error) {
 	var err error
 	var className []byte
 
@@ -1105,15 +1111,20 @@ func (d *Decoder) decodeObjectViaReflection(by []byte, idx int, ptr reflect.Valu
 		var offs, sz int
 		offs, sz, err = varintdecode(by[idx:])
 		if err != nil {
-			return 0, err
+			return nil, 0, err
 		}
 		if offs < 0 || offs >= idx {
-			return 0, ErrCorrupt{errBadOffset}
+			return nil, 0, ErrCorrupt{errBadOffset}
 		}
 		idx += sz
 		className, _, err = d.decodeStringish(by, offs)
 	}
 
+	return className, idx, err
+}
+
+func (d *Decoder) decodeObjectViaReflection(by []byte, idx int, ptr reflect.Value, isObjectV bool) (int, error) {
+	className, idx, err := d.decodeClassName(by, idx, isObjectV)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 9d990d28b4a90c78121e0357fe4125d87e4bec95 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 33/34] fix: aliases of typed items were decoded as pointers to
 them

---
 Go/sereal/decode.go | 40 ++++++++++++++++------------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index c18a167..a0de10a 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -444,6 +444,11 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 	case tag == typeREFP, tag == typeALIAS:
 		var val reflect.Value
 		if val, idx, err = d.decodeREFP_ALIAS(by, idx, tag == typeREFP); err == nil {
+			if tag == typeREFP && !d.DisableReferentialIntegrity {
+				res := reflect.New(val.Type())
+				res.Elem().Set(val)
+				val = res
+			}
 			*ptr = val.Interface()
 		}
 
@@ -876,7 +881,11 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 			return 0, err
 
 		}
-		ptr.Set(val.Elem())
+		if val.Kind() == reflect.Interface && val.IsNil() {
+			// the item is undef
+			val = reflect.Zero(ptr.Type())
+		}
+		ptr.Set(val)
 
 	case tag == typeWEAKEN:
 		if d.PerlCompat {
@@ -1042,6 +1051,7 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 	return idx, nil
 }
 
+// decodeREFP_ALIAS returns the earlier item a REFP or ALIAS designates
 func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Value, int, error) {
 	offs, sz, err := varintdecode(by[idx:])
 	if err != nil {
@@ -1067,35 +1077,17 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 		return res, 0, corrupt
 	}
 
-	var res reflect.Value
-	if rv.Kind() == reflect.Interface && rv.IsNil() && (!isREFP || d.DisableReferentialIntegrity) {
-		// the item is undef
-		res = rv
-	} else if rv.Kind() == reflect.Ptr && rv.Elem().Kind() == reflect.Interface {
+	if rv.Kind() == reflect.Ptr && rv.Elem().Kind() == reflect.Interface {
 		// rv contains *interface{},
 		// i.e. it was saved in decode() path
 		// rv.Elem() will be an interface
 		// rv.Elem().Elem() should be the data inside interface
-
-		if isREFP {
-			rvData := rv.Elem().Elem()
-			if d.DisableReferentialIntegrity {
-				res = rvData
-			} else {
-				res = reflect.New(rvData.Type())
-				res.Elem().Set(rvData)
-			}
-		} else {
-			res = rv.Elem()
-		}
-	} else {
-		// rv contains original value
-		// i.e. it was saved in decodeViaReflection() path
-		res = reflect.New(rv.Type())
-		res.Elem().Set(rv)
+		rv = rv.Elem().Elem()
 	}
 
-	return res, idx, nil
+	// otherwise rv contains original value,
+	// i.e. it was saved in decodeViaReflection() path
+	return rv, idx, nil
 }
 
 // decodeClassName reads the class name of an OBJECT or OBJECTV
-- 
2.43.0


From 22879f95fdffad946e3e22bf08a5efeb3cacb0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 34/34] fix: merging took class names of another string kind
 for the same

---
 Go/sereal/merge.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index c65cd40..6fe847e 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -605,7 +605,9 @@ LOOP:
 			length := offset + len(str) + 1 // respect typeOBJECT tag
 			// +1 because we should refer to string tag, not object tag
 			classOffset := mrgRelativeIdx + 1
-			if savedOffset, ok := m.objTable[string(str)]; ok {
+			// names are the same only if their tags agree: items may be copies of them
+			className := string(dbuf[didx+1 : didx+length])
+			if savedOffset, ok := m.objTable[className]; ok {
 				if tag == typeOBJECT {
 					mbuf = appendTagVarint(mbuf, typeOBJECTV|dbuf[didx]&trackFlag, uint(savedOffset))
 				} else {
@@ -613,7 +615,7 @@ LOOP:
 				}
 				classOffset = savedOffset
 			} else {
-				m.objTable[string(str)] = classOffset
+				m.objTable[className] = classOffset
 				mbuf = append(mbuf, dbuf[didx:didx+length]...)
 			}
 
-- 
2.43.0

