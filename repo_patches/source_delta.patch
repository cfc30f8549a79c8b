From 49840be023fbe47736b48f6b62eaadfc2bf45c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 01/19] fix: Unmarshal into a nil interface returns
 InvalidUnmarshalError instead of panicking

---
 unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 8388124..b60e3dc 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -29,7 +29,7 @@ func Unmarshal(data []byte, v any) error {
 func unmarshal(data []byte, v any) error {
 	rv := reflect.ValueOf(v)
 
-	rt := rv.Type()
+	rt := reflect.TypeOf(v)
 
 	if err := validateValue(rv, rt); err != nil {
 		return err
-- 
2.43.0


From 6c842d5544809f2ff37673a0ae0a8bda8d793223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 02/19] fix: declared array length or huge slice index panics
 or exhausts memory in Unmarshal

---
 internal/decoder/map.go   |  3 ++-
 internal/decoder/slice.go | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index 203a84e..bc0683f 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -75,7 +75,8 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 	}
 
 	if rv.IsNil() {
-		rv.Set(reflect.MakeMapWithSize(d.mapType, int(l)))
+		// do not trust the declared length, a pair takes at least 4 bytes
+		rv.Set(reflect.MakeMapWithSize(d.mapType, int(min(l, (int64(len(buf))-cursor)/4))))
 	}
 
 	cursor++
diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index d3a3cbb..6fab1a7 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -48,6 +48,14 @@ func (d *sliceDecoder) errNumber(offset int64) *errors.UnmarshalTypeError {
 	}
 }
 
+// maxSliceBytes is below the size where reflect.MakeSlice panics
+const maxSliceBytes = 1 << (30 + 16*(^uint(0)>>63))
+
+// maxSliceLen is the largest length of a slice with given element type
+func maxSliceLen(elemType reflect.Type) int {
+	return maxSliceBytes / max(1, int(elemType.Size()))
+}
+
 func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect.Value) (int64, error) {
 	buf := ctx.Buf
 	if !hasByte(buf, cursor) {
@@ -102,7 +110,9 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		}
 		cursor++
 
-		slice := reflect.MakeSlice(d.stype, 0, arrLen)
+		// do not trust the declared length, an element takes at least 6 bytes `i:0;N;`
+		maxLen := maxSliceLen(d.elemType)
+		slice := reflect.MakeSlice(d.stype, 0, min(arrLen, (len(buf)-int(cursor))/6, maxLen))
 
 		for {
 			if !hasByte(buf, cursor) {
@@ -118,6 +128,9 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 				return cursor, errors.ErrUnexpectedEnd("array value", cursor)
 			}
 
+			if currentIndex >= maxLen {
+				return 0, errors.ErrSyntax("php-serialize: array index out of range", cursor)
+			}
 			if currentIndex >= slice.Len() {
 				newSlice := reflect.MakeSlice(d.stype, currentIndex+1, currentIndex+1)
 				reflect.Copy(newSlice, slice)
-- 
2.43.0


From 1345a7d48634cc81b2848adb0bc6c1569f5bbb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 03/19] fix: decoding into a map with pointer keys panics

---
 internal/decoder/compile.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index 8460de8..7b2e655 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -141,17 +141,13 @@ func compileMapKey(typ reflect.Type, structName, fieldName string, structTypeToD
 		return nil, err
 	}
 
-	for {
-		switch t := dec.(type) {
-		case *stringDecoder, *interfaceDecoder:
-			return dec, nil
-		case *boolDecoder, *intDecoder, *uintDecoder:
-			return dec, nil
-		case *ptrDecoder:
-			dec = t.dec
-		default:
-			return newInvalidDecoder(typ, structName, fieldName), nil
-		}
+	switch dec.(type) {
+	case *stringDecoder, *interfaceDecoder:
+		return dec, nil
+	case *boolDecoder, *intDecoder, *uintDecoder:
+		return dec, nil
+	default:
+		return newInvalidDecoder(typ, structName, fieldName), nil
 	}
 }
 
-- 
2.43.0


From bdaf386590ca5002d0b95b6abca6a0f481685413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 04/19] fix: decoding an array as key of map[any]T panics with
 unhashable type

---
 internal/decoder/map.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index bc0683f..c7d90e7 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -97,6 +97,15 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 		if err != nil {
 			return 0, err
 		}
+		if !k.Elem().Comparable() {
+			return 0, &errors.UnmarshalTypeError{
+				Value:  "array",
+				Type:   d.keyType,
+				Offset: cursor,
+				Struct: d.structName,
+				Field:  d.fieldName,
+			}
+		}
 		cursor = keyCursor
 		if !hasByte(buf, cursor) {
 			return cursor, errors.ErrUnexpectedEnd("map value", cursor)
-- 
2.43.0


From a3ef5b5abfbf00c2b803a44c6058450b150a9fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 05/19] fix: Unmarshal into recursive slice, map, array or
 pointer type overflows the stack

---
 internal/decoder/compile.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index 7b2e655..b66268f 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -152,6 +152,10 @@ func compileMapKey(typ reflect.Type, structName, fieldName string, structTypeToD
 }
 
 func compilePtr(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if typ.Elem().Kind() == reflect.Ptr {
+		// also stops at recursive pointer type like `type P *P`
+		return newPtrDecoder(nil, typ.Elem(), structName, fieldName)
+	}
 	dec, err := compile(typ.Elem(), structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
@@ -220,24 +224,43 @@ func compileBytes(typ reflect.Type, structName, fieldName string) (Decoder, erro
 }
 
 func compileSlice(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if dec, exists := structTypeToDecoder[typ]; exists {
+		return dec, nil
+	}
 	elem := typ.Elem()
+	sliceDec := newSliceDecoder(nil, elem, elem.Size(), structName, fieldName)
+	structTypeToDecoder[typ] = sliceDec
 	decoder, err := compile(elem, structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
 	}
-	return newSliceDecoder(decoder, elem, elem.Size(), structName, fieldName), nil
+	sliceDec.valueDecoder = decoder
+	delete(structTypeToDecoder, typ)
+	return sliceDec, nil
 }
 
 func compileArray(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if dec, exists := structTypeToDecoder[typ]; exists {
+		return dec, nil
+	}
 	elem := typ.Elem()
+	arrayDec := newArrayDecoder(nil, elem, typ.Len(), structName, fieldName)
+	structTypeToDecoder[typ] = arrayDec
 	decoder, err := compile(elem, structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
 	}
-	return newArrayDecoder(decoder, elem, typ.Len(), structName, fieldName), nil
+	arrayDec.valueDecoder = decoder
+	delete(structTypeToDecoder, typ)
+	return arrayDec, nil
 }
 
 func compileMap(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if dec, exists := structTypeToDecoder[typ]; exists {
+		return dec, nil
+	}
+	mapDec := newMapDecoder(typ, typ.Key(), nil, typ.Elem(), nil, structName, fieldName)
+	structTypeToDecoder[typ] = mapDec
 	keyDec, err := compileMapKey(typ.Key(), structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
@@ -246,7 +269,10 @@ func compileMap(typ reflect.Type, structName, fieldName string, structTypeToDeco
 	if err != nil {
 		return nil, err
 	}
-	return newMapDecoder(typ, typ.Key(), keyDec, typ.Elem(), valueDec, structName, fieldName), nil
+	mapDec.keyDecoder = keyDec
+	mapDec.valueDecoder = valueDec
+	delete(structTypeToDecoder, typ)
+	return mapDec, nil
 }
 
 func compileInterface(typ reflect.Type, structName, fieldName string) (Decoder, error) {
-- 
2.43.0


From fcec44769dd8c43b1ae62dfe42ed578e5c10e71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 06/19] fix: appending to a decoded []byte overwrites other
 decoded values

---
 internal/decoder/context.go       | 3 ++-
 internal/decoder/interface.go     | 2 +-
 internal/decoder/unmarshal_php.go | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index 8c9d61d..99ff3e7 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -284,7 +284,8 @@ func readString(buf []byte, cursor int64) ([]byte, int64, error) {
 
 	cursor++
 
-	return buf[start:end], cursor, nil
+	// limit capacity, decoded []byte should not share memory with the rest of input
+	return buf[start:end:end], cursor, nil
 }
 
 func readIntegerBytes(buf []byte, cursor int64) ([]byte, int64, error) {
diff --git a/internal/decoder/interface.go b/internal/decoder/interface.go
index 61e21ed..e1cf67a 100644
--- a/internal/decoder/interface.go
+++ b/internal/decoder/interface.go
@@ -107,7 +107,7 @@ func decodePHPUnmarshaler(buf []byte, cursor, depth int64, unmarshaler Unmarshal
 	if err != nil {
 		return 0, err
 	}
-	src := buf[start:end]
+	src := buf[start:end:end]
 	if bytes.Equal(src, nullbytes) {
 		rv.SetZero()
 		return end, nil
diff --git a/internal/decoder/unmarshal_php.go b/internal/decoder/unmarshal_php.go
index f276c9a..89850ac 100644
--- a/internal/decoder/unmarshal_php.go
+++ b/internal/decoder/unmarshal_php.go
@@ -49,7 +49,7 @@ func (d *unmarshalPHPDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, r
 	if err != nil {
 		return 0, err
 	}
-	src := buf[start:end]
+	src := buf[start:end:end]
 	if len(src) > 0 {
 		switch src[0] {
 		case '[':
-- 
2.43.0


From 4ee1e42f580d6002aa69001b176c9d589854335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 07/19] fix: Unmarshal fails on string fields with `string` tag

---
 internal/decoder/wrapped_string.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/decoder/wrapped_string.go b/internal/decoder/wrapped_string.go
index b467272..7be82b0 100644
--- a/internal/decoder/wrapped_string.go
+++ b/internal/decoder/wrapped_string.go
@@ -23,6 +23,8 @@ type wrappedStringDecoder struct {
 func newWrappedStringDecoder(typ reflect.Type, dec Decoder, structName, fieldName string) (Decoder, error) {
 	var innerDec stringWrappedDecoder
 	switch v := dec.(type) {
+	case *stringDecoder:
+		return dec, nil
 	case *boolDecoder:
 		innerDec = newStringBoolDecoder(structName, fieldName)
 	case *floatDecoder:
-- 
2.43.0


From 7e394ef627358a5d4fb46613c11776461d036fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 08/19] fix: Marshal of a type recursive through an array
 overflows the stack

---
 internal/encoder/array.go   | 28 +++++++++++++---------------
 internal/encoder/compile.go |  2 +-
 internal/encoder/ptr.go     |  3 +++
 internal/encoder/struct.go  |  2 +-
 4 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/internal/encoder/array.go b/internal/encoder/array.go
index 32ca216..8b9409c 100644
--- a/internal/encoder/array.go
+++ b/internal/encoder/array.go
@@ -4,25 +4,22 @@ import (
 	"reflect"
 )
 
-func compileArray(rt reflect.Type) (encoder, error) {
+func compileArray(rt reflect.Type, seen compileSeenMap) (encoder, error) {
+	if recursiveEnc, exists := seen[rt]; exists {
+		return recursiveEnc.Encode, nil
+	}
+	recursiveEnc := &structRecEncoder{}
+	seen[rt] = recursiveEnc
+
 	length := rt.Len()
 	i64 := int64(length)
-	var enc encoder
-	var err error
 
-	if rt.Elem().Kind() == reflect.Map {
-		enc, err = compileWithCache(rt.Elem())
-		if err != nil {
-			return nil, err
-		}
-	} else {
-		enc, err = compileWithCache(rt.Elem())
-		if err != nil {
-			return nil, err
-		}
+	enc, err := compile(rt.Elem(), seen)
+	if err != nil {
+		return nil, err
 	}
 
-	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	recursiveEnc.enc = func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
 		b = appendArrayBegin(b, i64)
 
 		var err error // create a new error value, so shadow compiler's error
@@ -35,5 +32,6 @@ func compileArray(rt reflect.Type) (encoder, error) {
 		}
 
 		return append(b, '}'), nil
-	}, nil
+	}
+	return recursiveEnc.Encode, nil
 }
diff --git a/internal/encoder/compile.go b/internal/encoder/compile.go
index 39f32d6..c5030c2 100644
--- a/internal/encoder/compile.go
+++ b/internal/encoder/compile.go
@@ -36,7 +36,7 @@ func compile(rt reflect.Type, seen compileSeenMap) (encoder, error) {
 	case reflect.Struct:
 		return compileStruct(rt, seen)
 	case reflect.Array:
-		return compileArray(rt)
+		return compileArray(rt, seen)
 	case reflect.Slice:
 		return compileSlice(rt, seen)
 	case reflect.Map:
diff --git a/internal/encoder/ptr.go b/internal/encoder/ptr.go
index aed0db2..b15badc 100644
--- a/internal/encoder/ptr.go
+++ b/internal/encoder/ptr.go
@@ -29,6 +29,9 @@ func compilePtr(rt reflect.Type, seen compileSeenMap) (encoder, error) {
 	case reflect.Struct:
 		enc, err := compileStruct(rt.Elem(), seen)
 		return checkStructRecursiveEncoder(enc), err
+	case reflect.Array:
+		enc, err := compileArray(rt.Elem(), seen)
+		return checkStructRecursiveEncoder(enc), err
 	}
 
 	enc, err := compile(rt.Elem(), seen)
diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 873da8b..b676066 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -143,7 +143,7 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 		} else {
 			if field.Type.Kind() == reflect.Ptr {
 				fieldEncoder, err = compile(field.Type.Elem(), seen)
-				if err == nil && field.Type.Elem().Kind() == reflect.Struct {
+				if err == nil && (field.Type.Elem().Kind() == reflect.Struct || field.Type.Elem().Kind() == reflect.Array) {
 					fieldEncoder = checkStructRecursiveEncoder(fieldEncoder)
 					isPtrField = false
 				}
-- 
2.43.0


From 6e010a20539126e42493d7b0cb3f34dd24af0533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 09/19] fix: Marshal reports shared but acyclic values as
 recursive

---
 internal/encoder/context.go   | 21 +++++++++++++++++++--
 internal/encoder/interface.go | 12 ++++++++----
 internal/encoder/ptr.go       | 16 ++++++++--------
 3 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/internal/encoder/context.go b/internal/encoder/context.go
index 70f7717..182b99b 100644
--- a/internal/encoder/context.go
+++ b/internal/encoder/context.go
@@ -1,6 +1,7 @@
 package encoder
 
 import (
+	"reflect"
 	"sync"
 	"unsafe"
 )
@@ -10,17 +11,33 @@ var ctxPool = sync.Pool{
 		return &Ctx{
 			Buf:         make([]byte, 0, 1024),
 			smallBuffer: make([]byte, 0, 20),
-			Seen:        make(map[unsafe.Pointer]empty, 100),
+			Seen:        make(map[seenKey]empty, 100),
 		}
 	},
 }
 
 type empty struct{}
 
+// seenKey identify a value being encoded. A pointer is not enough,
+// a struct and its first field, or s and s[:1], have same address.
+type seenKey struct {
+	ptr unsafe.Pointer
+	typ reflect.Type
+	len int
+}
+
+func newSeenKey(rv reflect.Value) seenKey {
+	key := seenKey{ptr: rv.UnsafePointer(), typ: rv.Type()}
+	if rv.Kind() == reflect.Slice {
+		key.len = rv.Len()
+	}
+	return key
+}
+
 type Ctx struct {
 	smallBuffer []byte // a small buffer to encode float and time.Time as string
 	Buf         []byte
-	Seen        map[unsafe.Pointer]empty
+	Seen        map[seenKey]empty
 	StackDepth  uint
 }
 
diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 65c919f..bd71809 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -45,6 +45,10 @@ LOOP:
 
 	switch rv.Kind() {
 	case reflect.Slice:
+		if rv.Type().Elem().Kind() != reflect.Interface {
+			// compiled encoder will check recursive value
+			return reflectConcreteSlice(ctx, b, rv)
+		}
 		return reflectRecursiveValue(ctx, b, rv, reflectSlice)
 	case reflect.Map:
 		return reflectRecursiveValue(ctx, b, rv, reflectMap)
@@ -56,13 +60,13 @@ LOOP:
 }
 
 func reflectRecursiveValue(ctx *Ctx, b []byte, rv reflect.Value, enc encoder) ([]byte, error) {
-	ptr := rv.UnsafePointer()
-	if _, seen := ctx.Seen[ptr]; seen {
+	key := newSeenKey(rv)
+	if _, seen := ctx.Seen[key]; seen {
 		return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
 	}
-	ctx.Seen[ptr] = empty{}
+	ctx.Seen[key] = empty{}
 	b, err := enc(ctx, b, rv)
-	delete(ctx.Seen, ptr)
+	delete(ctx.Seen, key)
 	return b, err
 }
 
diff --git a/internal/encoder/ptr.go b/internal/encoder/ptr.go
index b15badc..37eef7c 100644
--- a/internal/encoder/ptr.go
+++ b/internal/encoder/ptr.go
@@ -60,19 +60,19 @@ func checkStructRecursiveEncoder(enc encoder) encoder {
 
 		ctx.StackDepth++
 		tracked := ctx.StackDepth > 1000
-		ptr := rv.UnsafePointer()
+		key := newSeenKey(rv)
 		if tracked {
-			_, seen := ctx.Seen[ptr]
+			_, seen := ctx.Seen[key]
 			if seen {
 				ctx.StackDepth--
 				return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
 			}
-			ctx.Seen[ptr] = empty{}
+			ctx.Seen[key] = empty{}
 		}
 
 		b, err := enc(ctx, b, rv.Elem())
 		if tracked {
-			delete(ctx.Seen, ptr)
+			delete(ctx.Seen, key)
 		}
 		ctx.StackDepth--
 
@@ -88,20 +88,20 @@ func checkRecursiveEncoder(enc encoder) encoder {
 
 		ctx.StackDepth++
 		tracked := ctx.StackDepth > 1000
-		ptr := rv.UnsafePointer()
+		key := newSeenKey(rv)
 		if tracked {
-			_, seen := ctx.Seen[ptr]
+			_, seen := ctx.Seen[key]
 			if seen {
 				ctx.StackDepth--
 				return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
 			}
 
-			ctx.Seen[ptr] = empty{}
+			ctx.Seen[key] = empty{}
 		}
 
 		b, err := enc(ctx, b, rv)
 		if tracked {
-			delete(ctx.Seen, ptr)
+			delete(ctx.Seen, key)
 		}
 		ctx.StackDepth--
 
-- 
2.43.0


From 6abbfc32460c6e741a7d58744029f394ab5bb991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 10/19] fix: Marshal never returns for values recursive through
 a pointer in an interface

---
 internal/encoder/interface.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index bd71809..a39d56a 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -17,8 +17,10 @@ func reflectInterfaceValue(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error)
 LOOP:
 	for {
 		switch rv.Kind() {
-		case reflect.Ptr, reflect.Interface:
-			if rv.IsNil() || rv.IsZero() {
+		case reflect.Ptr:
+			return checkStructRecursiveEncoder(reflectInterfaceValue)(ctx, b, rv)
+		case reflect.Interface:
+			if rv.IsNil() {
 				return appendNull(b), nil
 			}
 			rv = rv.Elem()
-- 
2.43.0


From 238b7d92f395db657f643edb3b4bb323c03373e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 11/19] fix: Marshal panics on a nil Marshaler

---
 internal/encoder/marshal_php.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/encoder/marshal_php.go b/internal/encoder/marshal_php.go
index 8fff89a..fa82188 100644
--- a/internal/encoder/marshal_php.go
+++ b/internal/encoder/marshal_php.go
@@ -12,6 +12,10 @@ type Marshaler interface {
 
 func compileMarshaler(rt reflect.Type) (encoder, error) {
 	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+		if (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface) && rv.IsNil() {
+			return appendNull(b), nil
+		}
+
 		raw, err := rv.Interface().(Marshaler).MarshalPHP()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 358172486e8735ebda73dd49f4fc9dd290a6ffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 12/19] fix: Marshal ignores custom marshalers inside
 interfaces

---
 internal/encoder/interface.go   |  4 ++++
 internal/encoder/marshal_php.go | 22 ++++++++++++----------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index a39d56a..eea17be 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -16,6 +16,10 @@ func compileInterface(rt reflect.Type) (encoder, error) {
 func reflectInterfaceValue(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
 LOOP:
 	for {
+		if rv.Type().Implements(marshalerType) {
+			return encodeMarshaler(ctx, b, rv)
+		}
+
 		switch rv.Kind() {
 		case reflect.Ptr:
 			return checkStructRecursiveEncoder(reflectInterfaceValue)(ctx, b, rv)
diff --git a/internal/encoder/marshal_php.go b/internal/encoder/marshal_php.go
index fa82188..b20afe2 100644
--- a/internal/encoder/marshal_php.go
+++ b/internal/encoder/marshal_php.go
@@ -11,16 +11,18 @@ type Marshaler interface {
 }
 
 func compileMarshaler(rt reflect.Type) (encoder, error) {
-	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
-		if (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface) && rv.IsNil() {
-			return appendNull(b), nil
-		}
+	return encodeMarshaler, nil
+}
+
+func encodeMarshaler(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	if (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface) && rv.IsNil() {
+		return appendNull(b), nil
+	}
 
-		raw, err := rv.Interface().(Marshaler).MarshalPHP()
-		if err != nil {
-			return nil, err
-		}
+	raw, err := rv.Interface().(Marshaler).MarshalPHP()
+	if err != nil {
+		return nil, err
+	}
 
-		return append(b, raw...), nil
-	}, nil
+	return append(b, raw...), nil
 }
-- 
2.43.0


From 2a91f90c4a782369d29fb064d54fd091ea702d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 13/19] fix: Marshal fails on arrays inside interfaces

---
 internal/encoder/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index eea17be..44a5151 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -58,7 +58,7 @@ LOOP:
 		return reflectRecursiveValue(ctx, b, rv, reflectSlice)
 	case reflect.Map:
 		return reflectRecursiveValue(ctx, b, rv, reflectMap)
-	case reflect.Struct:
+	case reflect.Struct, reflect.Array:
 		return reflectStruct(ctx, b, rv)
 	}
 
-- 
2.43.0


From c1cc0457f7f6ccee9c2f4d65c3e8ea8198331fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 14/19] fix: Marshal ignores custom marshalers of pointer
 fields and of string-tagged fields

---
 internal/encoder/struct.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index b676066..db74b5a 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -120,7 +120,8 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 		var fieldEncoder encoder
 		var err error
 
-		var isPtrField = field.Type.Kind() == reflect.Ptr
+		var isMarshaler = field.Type.Implements(marshalerType)
+		var isPtrField = field.Type.Kind() == reflect.Ptr && !isMarshaler
 
 		if field.Type.Kind() == reflect.Ptr {
 			if field.Type.Elem().Kind() == reflect.Ptr {
@@ -134,7 +135,9 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 			}
 		}
 
-		if cfg.IsString {
+		if isMarshaler {
+			fieldEncoder, err = compileMarshaler(field.Type)
+		} else if cfg.IsString {
 			if field.Type.Kind() == reflect.Ptr {
 				fieldEncoder, err = compileAsString(field.Type.Elem())
 			} else {
-- 
2.43.0


From 804b34a3b4fd3cb27606f338df96d18327b54b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 15/19] fix: Marshal skips fields with key "-" which Unmarshal
 accepts

---
 internal/encoder/struct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index db74b5a..d886f7d 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -112,10 +112,10 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 
 	for i := 0; i < rt.NumField(); i++ {
 		field := rt.Field(i)
-		cfg := runtime.StructTagFromField(field)
-		if cfg.Key == "-" || !cfg.Field.IsExported() {
+		if runtime.IsIgnoredStructField(field) {
 			continue
 		}
+		cfg := runtime.StructTagFromField(field)
 
 		var fieldEncoder encoder
 		var err error
-- 
2.43.0


From 54e936086f263deca5e510f0d2377f5fb70820fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 16/19] fix: Marshal never returns for a self-referencing
 pointer in a string-tagged interface field

---
 internal/encoder/interface.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 44a5151..2862e83 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -86,8 +86,10 @@ func reflectInterfaceValueAsString(ctx *Ctx, b []byte, rv reflect.Value) ([]byte
 LOOP:
 	for {
 		switch rv.Kind() {
-		case reflect.Ptr, reflect.Interface:
-			if rv.IsNil() || rv.IsZero() {
+		case reflect.Ptr:
+			return checkStructRecursiveEncoder(reflectInterfaceValueAsString)(ctx, b, rv)
+		case reflect.Interface:
+			if rv.IsNil() {
 				return appendNull(b), nil
 			}
 			rv = rv.Elem()
-- 
2.43.0


From 4a7c6f3bd5f63a86502db52a84f3a84847d64276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 17/19] fix: Marshal ignores custom marshalers in string-tagged
 interface fields

---
 internal/encoder/interface.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 2862e83..ed9c03a 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -85,6 +85,10 @@ func compileInterfaceAsString(rt reflect.Type) (encoder, error) {
 func reflectInterfaceValueAsString(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
 LOOP:
 	for {
+		if rv.Type().Implements(marshalerType) {
+			return encodeMarshaler(ctx, b, rv)
+		}
+
 		switch rv.Kind() {
 		case reflect.Ptr:
 			return checkStructRecursiveEncoder(reflectInterfaceValueAsString)(ctx, b, rv)
-- 
2.43.0


From d8f1d213c9cdfd934a04e9dfce824ece2122636f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:41 +0000
Subject: [PATCH 18/19] fix: float32 values at the edge of the range do not
 decode back

---
 internal/decoder/float.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/decoder/float.go b/internal/decoder/float.go
index 27a6a12..aeb56e7 100644
--- a/internal/decoder/float.go
+++ b/internal/decoder/float.go
@@ -60,7 +60,7 @@ func (d *floatDecoder) processBytes(bytes []byte, cursor int64, rv reflect.Value
 	case "NAN":
 		f64 = math.NaN()
 	default:
-		f64, err = strconv.ParseFloat(unsafeStr(bytes), 64)
+		f64, err = strconv.ParseFloat(unsafeStr(bytes), rv.Type().Bits())
 	}
 	if err != nil {
 		return 0, errors.ErrSyntax(err.Error(), cursor)
-- 
2.43.0


From 709136e6ec5ffbb0381becf706c7ec2953dd1780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:29 +0000
Subject: [PATCH 19/19] fix: Marshal calls MarshalPHP on a nil pointer held by
 an interface with methods

---
 internal/encoder/marshal_php.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/encoder/marshal_php.go b/internal/encoder/marshal_php.go
index b20afe2..ee62504 100644
--- a/internal/encoder/marshal_php.go
+++ b/internal/encoder/marshal_php.go
@@ -15,6 +15,9 @@ func compileMarshaler(rt reflect.Type) (encoder, error) {
 }
 
 func encodeMarshaler(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	if rv.Kind() == reflect.Interface && !rv.IsNil() {
+		rv = rv.Elem()
+	}
 	if (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface) && rv.IsNil() {
 		return appendNull(b), nil
 	}
-- 
2.43.0

