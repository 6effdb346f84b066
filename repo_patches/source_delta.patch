From 5b9d39c98857c6187cf8fdb402e320b45f274932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 01/22] fix: keep struct output well-formed when fields are
 omitted or rolled back

A nil embedded struct pointer left the comma of the rolled back field
behind ({"A":1,}), and an indented struct without emitted fields was
written as '{', a line break and '}' instead of {}.
---
 encode.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/encode.go b/encode.go
index e4c0202..fd54d0d 100644
--- a/encode.go
+++ b/encode.go
@@ -695,10 +695,6 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 
 	b = e.clrs.appendPunc(b, '{')
 
-	if len(st.fields) > 0 {
-		b = e.indentr.appendByte(b, '\n')
-	}
-
 	e.indentr.push()
 
 	for i := range st.fields {
@@ -709,18 +705,19 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 			continue
 		}
 
-		if n != 0 {
-			b = e.clrs.appendPunc(b, ',')
-			b = e.indentr.appendByte(b, '\n')
-		}
-
 		if (e.flags & EscapeHTML) != 0 {
 			k = f.html
 		} else {
 			k = f.json
 		}
 
-		lengthBeforeKey := len(b)
+		// A field that is rolled back must also take back the separator and
+		// the line break that precede it.
+		lengthBeforeField := len(b)
+		if n != 0 {
+			b = e.clrs.appendPunc(b, ',')
+		}
+		b = e.indentr.appendByte(b, '\n')
 		b = e.indentr.appendIndent(b)
 
 		if e.clrs == nil {
@@ -737,7 +734,7 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 
 		if b, err = f.codec.encode(e, b, v); err != nil {
 			if errors.Is(err, rollback{}) {
-				b = b[:lengthBeforeKey]
+				b = b[:lengthBeforeField]
 				continue
 			}
 			return b[:start], err
@@ -746,13 +743,13 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 		n++
 	}
 
+	e.indentr.pop()
+
 	if n > 0 {
 		b = e.indentr.appendByte(b, '\n')
+		b = e.indentr.appendIndent(b)
 	}
 
-	e.indentr.pop()
-	b = e.indentr.appendIndent(b)
-
 	b = e.clrs.appendPunc(b, '}')
 	return b, nil
 }
-- 
2.43.0


From 253a0a9d02eb533a18532d7c1b172f79e3c219a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 02/22] fix: evaluate omitempty of promoted fields behind the
 embedded pointer

The emptiness check of a field promoted through an embedded struct
pointer was applied to the location of the pointer itself.
---
 codec.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/codec.go b/codec.go
index 8f932b2..47316fe 100644
--- a/codec.go
+++ b/codec.go
@@ -501,6 +501,13 @@ func constructEmbeddedStructPointerDecodeFunc(t reflect.Type, unexported bool, o
 	}
 }
 
+func constructEmbeddedStructPointerEmptyFunc(offset uintptr, empty emptyFunc) emptyFunc {
+	return func(p unsafe.Pointer) bool {
+		p = *(*unsafe.Pointer)(p)
+		return p == nil || empty(unsafe.Pointer(uintptr(p)+offset))
+	}
+}
+
 type embeddedField struct {
 	index      int
 	offset     uintptr
@@ -620,6 +627,7 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 
 		if embfield.pointer {
 			subfield.codec = constructEmbeddedStructPointerCodec(embfield.subtype.typ, embfield.unexported, subfield.offset, subfield.codec)
+			subfield.empty = constructEmbeddedStructPointerEmptyFunc(subfield.offset, subfield.empty)
 			subfield.offset = embfield.offset
 		} else {
 			subfield.offset += embfield.offset
-- 
2.43.0


From d020ad9a346bc0192f0fc09a2786a5451dad65bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:21 +0000
Subject: [PATCH 03/22] fix: return the write error from the Encode call that
 hit it

---
 json.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/json.go b/json.go
index cb27c32..78340fa 100644
--- a/json.go
+++ b/json.go
@@ -408,9 +408,8 @@ func (enc *Encoder) Encode(v interface{}) error {
 	buf.data = append(buf.data, '\n')
 	b := buf.data
 
-	if _, err2 := enc.writer.Write(b); err2 != nil {
-		enc.err = err2
-	}
+	_, err = enc.writer.Write(b)
+	enc.err = err
 
 	encoderBufferPool.Put(buf)
 	return err
-- 
2.43.0


From 13945ba56539975693ec64a4132ebababb92c2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 04/22] fix: report raw message errors from unsorted
 map[string]RawMessage

---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index fd54d0d..29585e2 100644
--- a/encode.go
+++ b/encode.go
@@ -617,7 +617,7 @@ func (e encoder) encodeMapStringRawMessage(b []byte, p unsafe.Pointer) ([]byte,
 				v := m[k]
 				b, err = e.encodeRawMessage(b, unsafe.Pointer(&v))
 				if err != nil {
-					break
+					return b, err
 				}
 
 				i++
-- 
2.43.0


From 568099fa30c3ffde3d897d7fa19b5fcc80e1a423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 05/22] fix: restore the indentation level when encoding fails
 midway

The levels entered before an error were never left, so that everything
written afterwards with the same Indenter (or Encoder) was over-indented.
---
 encode.go | 17 +++++++++++++++++
 json.go   |  5 +++++
 2 files changed, 22 insertions(+)

diff --git a/encode.go b/encode.go
index 29585e2..99e50de 100644
--- a/encode.go
+++ b/encode.go
@@ -817,8 +817,10 @@ func (e encoder) encodeRawMessage(b []byte, p unsafe.Pointer) ([]byte, error) {
 		}
 	}
 
+	depth := e.indentr.level()
 	b, err := e.appendRawMessageTokens(b, s)
 	if err != nil && trusted {
+		e.indentr.restore(depth)
 		// The message was trusted but is not well-formed JSON. Per the
 		// TrustRawMessage contract, emit the bytes verbatim without validation
 		// or colorization.
@@ -1155,6 +1157,21 @@ func (in *Indenter) pop() {
 	}
 }
 
+// level returns the current indentation level.
+func (in *Indenter) level() int {
+	if in == nil {
+		return 0
+	}
+	return in.depth
+}
+
+// restore resets the indentation level to one returned by level.
+func (in *Indenter) restore(depth int) {
+	if in != nil {
+		in.depth = depth
+	}
+}
+
 // appendByte appends a to b if the Indenter is non-nil and enabled.
 // Otherwise b is returned unmodified.
 func (in *Indenter) appendByte(b []byte, a byte) []byte {
diff --git a/json.go b/json.go
index 78340fa..786f639 100644
--- a/json.go
+++ b/json.go
@@ -136,7 +136,12 @@ func Append(b []byte, x interface{}, flags AppendFlags, clrs *Colors, indentr *I
 		c = constructCachedCodec(t, cache)
 	}
 
+	depth := indentr.level()
 	b, err := c.encode(encoder{flags: flags, clrs: clrs, indentr: indentr}, b, p)
+	if err != nil {
+		// Encoding stopped midway, leave the levels that are still open.
+		indentr.restore(depth)
+	}
 	runtime.KeepAlive(x)
 	return b, err
 }
-- 
2.43.0


From 87888473e5939a5fbba4efe1796cfd251f9c9128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 06/22] fix: validate the whole json.Number literal before
 encoding it

---
 encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 99e50de..da47021 100644
--- a/encode.go
+++ b/encode.go
@@ -135,10 +135,13 @@ func (e encoder) encodeNumber(b []byte, p unsafe.Pointer) ([]byte, error) {
 		n = "0"
 	}
 
-	_, _, err := parseNumber(stringToBytes(string(n)))
+	_, r, err := parseNumber(stringToBytes(string(n)))
 	if err != nil {
 		return b, err
 	}
+	if len(r) != 0 {
+		return b, syntaxError(r, "invalid character '%c' in number literal", r[0])
+	}
 
 	if e.clrs == nil {
 		return append(b, n...), nil
-- 
2.43.0


From 7b70e120ec02cce4991fa7aead6392f066c949db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 07/22] fix: check the whole RawMessage instead of its first
 value

A message that starts with white space was rejected, and whatever
followed the first value of a message was silently dropped.
---
 encode.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index da47021..fa6edc3 100644
--- a/encode.go
+++ b/encode.go
@@ -813,8 +813,14 @@ func (e encoder) encodeRawMessage(b []byte, p unsafe.Pointer) ([]byte, error) {
 
 	s := []byte(v)
 	if !trusted {
+		var r []byte
 		var err error
-		s, _, err = parseValue(v)
+		s, r, err = parseValue(skipSpaces(v))
+		if err == nil {
+			if r = skipSpaces(r); len(r) != 0 {
+				err = syntaxError(r, "invalid character '%c' after top-level value", r[0])
+			}
+		}
 		if err != nil {
 			return b, &UnsupportedValueError{Value: reflect.ValueOf(v), Str: err.Error()}
 		}
-- 
2.43.0


From 1cb50908f87c278ce72b629a65a85f8fe56862a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 08/22] fix: keep color codes out of the content of quoted
 values

Integer map keys and ",string" fields were colorized before being
quoted, which put the escaped color codes inside the JSON string.
---
 codec.go  | 10 +++++-----
 encode.go | 23 ++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/codec.go b/codec.go
index 47316fe..89a692b 100644
--- a/codec.go
+++ b/codec.go
@@ -215,14 +215,14 @@ func constructCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr b
 func constructStringCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr bool) codec {
 	c := constructCodec(t, seen, canAddr)
 	return codec{
-		encode: constructStringEncodeFunc(c.encode),
+		encode: constructStringEncodeFunc(true, c.encode),
 		decode: constructStringDecodeFunc(c.decode),
 	}
 }
 
-func constructStringEncodeFunc(encode encodeFunc) encodeFunc {
+func constructStringEncodeFunc(isKey bool, encode encodeFunc) encodeFunc {
 	return func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) {
-		return e.encodeToString(b, p, encode)
+		return e.encodeToString(b, p, isKey, encode)
 	}
 }
 
@@ -699,13 +699,13 @@ func stringify(f *reflect.StructField, c codec) codec {
 		reflect.Uint16,
 		reflect.Uint32,
 		reflect.Uint64:
-		c.encode = constructStringEncodeFunc(c.encode)
+		c.encode = constructStringEncodeFunc(false, c.encode)
 		c.decode = constructStringToIntDecodeFunc(typ, c.decode)
 	case reflect.Bool,
 		reflect.Float32,
 		reflect.Float64,
 		reflect.String:
-		c.encode = constructStringEncodeFunc(c.encode)
+		c.encode = constructStringEncodeFunc(false, c.encode)
 		c.decode = constructStringDecodeFunc(c.decode)
 	}
 
diff --git a/encode.go b/encode.go
index fa6edc3..bf4b0c5 100644
--- a/encode.go
+++ b/encode.go
@@ -277,9 +277,30 @@ func (e encoder) doEncodeString(b []byte, p unsafe.Pointer) ([]byte, error) {
 	return b, nil
 }
 
-func (e encoder) encodeToString(b []byte, p unsafe.Pointer, encode encodeFunc) ([]byte, error) {
+func (e encoder) encodeToString(b []byte, p unsafe.Pointer, isKey bool, encode encodeFunc) ([]byte, error) {
+	if e.clrs == nil {
+		return e.doEncodeToString(b, p, encode)
+	}
+
+	clr := e.clrs.String
+	if isKey {
+		clr = e.clrs.Key
+	}
+
+	b = append(b, clr...)
+	var err error
+	b, err = e.doEncodeToString(b, p, encode)
+	b = append(b, ansiReset...)
+	return b, err
+}
+
+func (e encoder) doEncodeToString(b []byte, p unsafe.Pointer, encode encodeFunc) ([]byte, error) {
 	i := len(b)
 
+	// The encoded value becomes the content of the string, it must not
+	// contain color codes.
+	e.clrs = nil
+
 	b, err := encode(e, b, p)
 	if err != nil {
 		return b, err
-- 
2.43.0


From 5eb08365bae0d0b0c96049acbe95eaf5a5e220f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 09/22] fix: encode nil pointers with the string option as null

They came out as the string "null". The omitempty option also dropped
non-nil interface values that hold a nil pointer.
---
 codec.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/codec.go b/codec.go
index 89a692b..007abaa 100644
--- a/codec.go
+++ b/codec.go
@@ -226,6 +226,19 @@ func constructStringEncodeFunc(isKey bool, encode encodeFunc) encodeFunc {
 	}
 }
 
+func constructStringFieldEncodeFunc(t reflect.Type, encode encodeFunc) encodeFunc {
+	encodeToString := constructStringEncodeFunc(false, encode)
+	if t.Kind() != reflect.Pointer {
+		return encodeToString
+	}
+	return func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) {
+		if *(*unsafe.Pointer)(p) == nil {
+			return e.encodeNull(b, nil)
+		}
+		return encodeToString(e, b, p)
+	}
+}
+
 func constructStringDecodeFunc(decode decodeFunc) decodeFunc {
 	return func(d decoder, b []byte, p unsafe.Pointer) ([]byte, error) {
 		return d.decodeFromString(b, p, decode)
@@ -699,13 +712,13 @@ func stringify(f *reflect.StructField, c codec) codec {
 		reflect.Uint16,
 		reflect.Uint32,
 		reflect.Uint64:
-		c.encode = constructStringEncodeFunc(false, c.encode)
+		c.encode = constructStringFieldEncodeFunc(f.Type, c.encode)
 		c.decode = constructStringToIntDecodeFunc(typ, c.decode)
 	case reflect.Bool,
 		reflect.Float32,
 		reflect.Float64,
 		reflect.String:
-		c.encode = constructStringEncodeFunc(false, c.encode)
+		c.encode = constructStringFieldEncodeFunc(f.Type, c.encode)
 		c.decode = constructStringDecodeFunc(c.decode)
 	}
 
@@ -918,7 +931,7 @@ func emptyFuncOf(t reflect.Type) emptyFunc {
 		return func(p unsafe.Pointer) bool { return *(*unsafe.Pointer)(p) == nil }
 
 	case reflect.Interface:
-		return func(p unsafe.Pointer) bool { return (*iface)(p).ptr == nil }
+		return func(p unsafe.Pointer) bool { return (*iface)(p).typ == nil }
 	}
 
 	return func(unsafe.Pointer) bool { return false }
-- 
2.43.0


From fca8a6a4cb8fd0561a5b59be4df14eb7b616fd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 10/22] fix: write only the Null color for nil byte slices

---
 encode.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/encode.go b/encode.go
index bf4b0c5..8ad5c13 100644
--- a/encode.go
+++ b/encode.go
@@ -318,6 +318,10 @@ func (e encoder) doEncodeToString(b []byte, p unsafe.Pointer, encode encodeFunc)
 }
 
 func (e encoder) encodeBytes(b []byte, p unsafe.Pointer) ([]byte, error) {
+	if *(*[]byte)(p) == nil {
+		return e.clrs.appendNull(b), nil
+	}
+
 	if e.clrs == nil {
 		return e.doEncodeBytes(b, p)
 	}
@@ -330,10 +334,6 @@ func (e encoder) encodeBytes(b []byte, p unsafe.Pointer) ([]byte, error) {
 
 func (e encoder) doEncodeBytes(b []byte, p unsafe.Pointer) ([]byte, error) {
 	v := *(*[]byte)(p)
-	if v == nil {
-		return e.clrs.appendNull(b), nil
-	}
-
 	n := base64.StdEncoding.EncodedLen(len(v)) + 2
 
 	if avail := cap(b) - len(b); avail < n {
-- 
2.43.0


From 26e6c4bda50884993c29f9ff3d8f23d28e4828e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 11/22] fix: select map key codecs like encoding/json

Encoding a map failed with a nil dereference when only the pointer to
the key type implements encoding.TextUnmarshaler, as did nil pointer
keys. Text keys were written in the TextMarshaler color instead of Key.
---
 codec.go  | 71 ++++++++++++++++++++++++++++++++++++++++++-------------
 encode.go |  8 +++++++
 2 files changed, 62 insertions(+), 17 deletions(-)

diff --git a/codec.go b/codec.go
index 007abaa..fd22f4c 100644
--- a/codec.go
+++ b/codec.go
@@ -365,21 +365,17 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 	kc := codec{}
 	vc := constructCodec(v, seen, false)
 
-	if k.Implements(textMarshalerType) || reflect.PointerTo(k).Implements(textUnmarshalerType) {
-		kc.encode = constructTextMarshalerEncodeFunc(k, false)
+	// Like in encoding/json, the text (un)marshaler of a key type is only used
+	// in the direction that it supports, and keys that are strings are always
+	// encoded as they are.
+	textEncode := k.Kind() != reflect.String && k.Implements(textMarshalerType)
+	textDecode := reflect.PointerTo(k).Implements(textUnmarshalerType)
+
+	if textEncode && textDecode {
+		kc.encode = constructTextMarshalerKeyEncodeFunc(k)
 		kc.decode = constructTextUnmarshalerDecodeFunc(k, true)
 
-		sortKeys = func(keys []reflect.Value) {
-			sort.Slice(keys, func(i, j int) bool {
-				// This is a performance abomination but the use case is rare
-				// enough that it shouldn't be a problem in practice.
-				tm1, _ := keys[i].Interface().(encoding.TextMarshaler)
-				tm2, _ := keys[j].Interface().(encoding.TextMarshaler)
-				k1, _ := tm1.MarshalText()
-				k2, _ := tm2.MarshalText()
-				return string(k1) < string(k2)
-			})
-		}
+		sortKeys = sortTextMarshalerKeys
 	} else {
 		switch k.Kind() {
 		case reflect.String:
@@ -414,18 +410,53 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 			}
 
 		default:
-			return constructUnsupportedTypeCodec(t)
+			if !textEncode && !textDecode {
+				return constructUnsupportedTypeCodec(t)
+			}
+		}
+
+		if textEncode {
+			kc.encode = constructTextMarshalerKeyEncodeFunc(k)
+			sortKeys = sortTextMarshalerKeys
+		}
+		if textDecode {
+			kc.decode = constructTextUnmarshalerDecodeFunc(k, true)
 		}
 	}
 
+	c := constructUnsupportedTypeCodec(t)
+
 	if inlined(v) {
 		vc.encode = constructInlineValueEncodeFunc(vc.encode)
 	}
 
-	return codec{
-		encode: constructMapEncodeFunc(t, kc.encode, vc.encode, sortKeys),
-		decode: constructMapDecodeFunc(t, kc.decode, vc.decode),
+	if kc.encode != nil {
+		c.encode = constructMapEncodeFunc(t, kc.encode, vc.encode, sortKeys)
+	}
+	if kc.decode != nil {
+		c.decode = constructMapDecodeFunc(t, kc.decode, vc.decode)
+	}
+	return c
+}
+
+func sortTextMarshalerKeys(keys []reflect.Value) {
+	sort.Slice(keys, func(i, j int) bool {
+		// This is a performance abomination but the use case is rare
+		// enough that it shouldn't be a problem in practice.
+		k1, _ := marshalTextKey(keys[i])
+		k2, _ := marshalTextKey(keys[j])
+		return string(k1) < string(k2)
+	})
+}
+
+// marshalTextKey returns the text of a map key that implements
+// encoding.TextMarshaler. Like in encoding/json, nil pointers are empty keys.
+func marshalTextKey(k reflect.Value) ([]byte, error) {
+	if k.Kind() == reflect.Pointer && k.IsNil() {
+		return nil, nil
 	}
+	tm, _ := k.Interface().(encoding.TextMarshaler)
+	return tm.MarshalText()
 }
 
 func constructMapEncodeFunc(t reflect.Type, encodeKey, encodeValue encodeFunc, sortKeys sortFunc) encodeFunc {
@@ -809,6 +840,12 @@ func constructTextMarshalerEncodeFunc(t reflect.Type, pointer bool) encodeFunc {
 	}
 }
 
+func constructTextMarshalerKeyEncodeFunc(t reflect.Type) encodeFunc {
+	return func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) {
+		return e.encodeTextMarshalerKey(b, p, t)
+	}
+}
+
 func constructTextUnmarshalerDecodeFunc(t reflect.Type, pointer bool) decodeFunc {
 	return func(d decoder, b []byte, p unsafe.Pointer) ([]byte, error) {
 		return d.decodeTextUnmarshaler(b, p, t, pointer)
diff --git a/encode.go b/encode.go
index 8ad5c13..5406e40 100644
--- a/encode.go
+++ b/encode.go
@@ -1083,6 +1083,14 @@ func (e encoder) encodeTextMarshaler(b []byte, p unsafe.Pointer, t reflect.Type,
 	return b, err
 }
 
+func (e encoder) encodeTextMarshalerKey(b []byte, p unsafe.Pointer, t reflect.Type) ([]byte, error) {
+	s, err := marshalTextKey(reflect.NewAt(t, p).Elem())
+	if err != nil {
+		return b, err
+	}
+	return e.encodeKey(b, unsafe.Pointer(&s))
+}
+
 func appendCompactEscapeHTML(dst, src []byte) []byte {
 	start := 0
 	escape := false
-- 
2.43.0


From c8d8e988ba69409bbdfabe3ab4618bbaaa528c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 12/22] fix: recognize all types that interfaces hold directly

Arrays of one pointer or map, and map keys that are pointers, were
encoded from a wrong address.
---
 codec.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/codec.go b/codec.go
index fd22f4c..779c277 100644
--- a/codec.go
+++ b/codec.go
@@ -431,6 +431,9 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 	}
 
 	if kc.encode != nil {
+		if inlined(k) {
+			kc.encode = constructInlineValueEncodeFunc(kc.encode)
+		}
 		c.encode = constructMapEncodeFunc(t, kc.encode, vc.encode, sortKeys)
 	}
 	if kc.decode != nil {
@@ -884,17 +887,15 @@ func align(align, size uintptr) uintptr {
 	return size
 }
 
+// inlined returns true if interfaces hold the values of type t directly
+// instead of pointing to them.
 func inlined(t reflect.Type) bool {
-	switch t.Kind() {
-	case reflect.Pointer:
-		return true
-	case reflect.Map:
-		return true
-	case reflect.Struct:
-		return t.NumField() == 1 && inlined(t.Field(0).Type)
-	default:
+	if t.Kind() == reflect.Interface {
 		return false
 	}
+	// The zero value of such a type is a nil pointer.
+	zero := reflect.Zero(t).Interface()
+	return (*iface)(unsafe.Pointer(&zero)).ptr == nil
 }
 
 func isValidTag(s string) bool {
-- 
2.43.0


From 09718cd2499f7b44b31bd7a4669907badab3d0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:32 +0000
Subject: [PATCH 13/22] fix: make Tokenizer robust against misplaced delimiters

A comma outside of arrays and objects made Next panic, mismatched
closing delimiters were neither reported in Err nor sticky, and the
values that follow an empty object were reported as keys.
---
 token.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/token.go b/token.go
index df5f11e..ef99a05 100644
--- a/token.go
+++ b/token.go
@@ -176,8 +176,10 @@ skipLoop:
 			t.isKey = true
 			t.push(inObject)
 		case '[':
+			t.isKey = false
 			t.push(inArray)
 		case '}':
+			t.isKey = false
 			err = t.pop(inObject)
 			t.Depth--
 			t.Index = t.index()
@@ -188,11 +190,14 @@ skipLoop:
 		case ':':
 			t.isKey = false
 		case ',':
-			if t.is(inObject) {
-				t.isKey = true
+			t.isKey = t.is(inObject)
+			if len(t.stack) == 0 {
+				err = syntaxError(t.json, "found unexpected character while tokenizing json input")
+			} else {
+				t.stack[len(t.stack)-1].len++
 			}
-			t.stack[len(t.stack)-1].len++
 		}
+		t.Err = err
 	}
 
 	return (d != 0 || len(v) != 0) && err == nil
-- 
2.43.0


From 25c40ae8d03bd929b579fde7ef5b5080e66fe43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:36 +0000
Subject: [PATCH 14/22] fix: decode JSON arrays into Go arrays like
 encoding/json

An empty JSON array was rejected, extra elements without separators were
accepted, and elements without a JSON counterpart were not zeroed.
---
 decode.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/decode.go b/decode.go
index ad4b113..a650ca2 100644
--- a/decode.go
+++ b/decode.go
@@ -516,6 +516,14 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 	for i := 0; i < n; i++ {
 		b = skipSpaces(b)
 
+		if len(b) != 0 && b[0] == ']' {
+			// Like in encoding/json, the remaining elements are zeroed.
+			for z := reflect.Zero(t.Elem()); i < n; i++ {
+				reflect.NewAt(t.Elem(), unsafe.Pointer(uintptr(p)+(uintptr(i)*size))).Elem().Set(z)
+			}
+			return b[1:], nil
+		}
+
 		if i != 0 {
 			if len(b) == 0 {
 				return b, syntaxError(b, "unexpected EOF after array element")
@@ -523,8 +531,6 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 			switch b[0] {
 			case ',':
 				b = skipSpaces(b[1:])
-			case ']':
-				return b[1:], nil
 			default:
 				return b, syntaxError(b, "expected ',' after array element but found '%c'", b[0])
 			}
@@ -543,20 +549,24 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 
 	// The encoding/json package ignores extra elements found when decoding into
 	// array types (which have a fixed size).
-	for {
+	for i := n; ; i++ {
 		b = skipSpaces(b)
 
 		if len(b) == 0 {
 			return b, syntaxError(b, "missing closing ']' in array value")
 		}
 
-		switch b[0] {
-		case ',':
-			b = skipSpaces(b[1:])
-		case ']':
+		if b[0] == ']' {
 			return b[1:], nil
 		}
 
+		if i != 0 {
+			if b[0] != ',' {
+				return b, syntaxError(b, "expected ',' after array element but found '%c'", b[0])
+			}
+			b = skipSpaces(b[1:])
+		}
+
 		_, b, err = parseValue(b)
 		if err != nil {
 			return b, err
-- 
2.43.0


From 2916636eaed2a8f46374bfa7a3ecfbb6528dbc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 15/22] fix: let parse errors tell incomplete input from
 invalid input

A string that ended inside of a unicode escape was reported as invalid
and a number with an invalid exponent as incomplete, which the Decoder
turned into the wrong error. skipSpacesN did not count trailing spaces,
which left them out of Decoder.InputOffset.
---
 parse.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index f6efe9f..7efbadc 100644
--- a/parse.go
+++ b/parse.go
@@ -30,7 +30,7 @@ func skipSpacesN(b []byte) ([]byte, int) {
 			return b[i:], i
 		}
 	}
-	return nil, 0
+	return nil, len(b)
 }
 
 // parseInt parses a decimanl representation of an int64 from b.
@@ -349,7 +349,7 @@ func parseNumber(b []byte) (v, r []byte, err error) {
 		for i < len(b) {
 			if c := b[i]; c < '0' || c > '9' {
 				if i == exponentStart {
-					err = syntaxError(b, "expected digit but found '%c'", c)
+					r, err = b[i:], syntaxError(b, "expected digit but found '%c'", c)
 					return v, r, err
 				}
 				break
@@ -379,6 +379,16 @@ func parseUnicode(b []byte) (rune, int, error) {
 	return rune(u), 4, nil //nolint:gosec // u is at most 0xFFFF (4 hex digits), always a valid rune
 }
 
+// hasPartialUnicode returns true if b ends before it is known whether it starts
+// with a valid unicode code point.
+func hasPartialUnicode(b []byte) bool {
+	if len(b) == 0 {
+		return true
+	}
+	_, r, err := parseUintHex(b)
+	return err == nil && len(r) == 0 && len(b) < 4
+}
+
 func parseStringFast(b []byte) ([]byte, []byte, bool, error) {
 	if len(b) < 2 {
 		return nil, b[len(b):], false, unexpectedEOF(b)
@@ -404,6 +414,9 @@ func parseStringFast(b []byte) ([]byte, []byte, bool, error) {
 				case 'u':
 					_, n, err := parseUnicode(b[i+1:])
 					if err != nil {
+						if hasPartialUnicode(b[i+1:]) {
+							return nil, b[len(b):], false, err
+						}
 						return nil, b, false, err
 					}
 					i += n
-- 
2.43.0


From 7a9090316eb96cbd3a8ef6d8ba9474cdc5d348e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:31 +0000
Subject: [PATCH 16/22] fix: do not split numbers or lose read errors in the
 Decoder

A number at the end of the read buffer was cut in two values, read
errors were dropped when they came with data, and values were held back
until the whole buffer was filled.
---
 json.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/json.go b/json.go
index 786f639..f4f14e5 100644
--- a/json.go
+++ b/json.go
@@ -287,12 +287,14 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 	for {
 		if len(dec.remain) != 0 {
 			v, r, err = parseValue(dec.remain)
-			if err == nil {
+			// A number at the end of the buffer may go on in the data that was
+			// not read yet.
+			if err == nil && (len(r) != 0 || !RawValue(v).Number() || errors.Is(dec.err, io.EOF)) {
 				dec.remain, n = skipSpacesN(r)
 				dec.inputOffset += int64(len(v) + n)
 				return v, nil
 			}
-			if len(r) != 0 {
+			if err != nil && len(r) != 0 {
 				// Parsing of the next JSON value stopped at a position other
 				// than the end of the input buffer, which indicaates that a
 				// syntax error was encountered.
@@ -320,15 +322,10 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 			dec.buffer = buf
 		}
 
-		n, err = io.ReadFull(dec.reader, dec.buffer[len(dec.buffer):cap(dec.buffer)])
-		if n > 0 {
-			dec.buffer = dec.buffer[:len(dec.buffer)+n]
-			if err != nil {
-				err = nil
-			}
-		} else if errors.Is(err, io.ErrUnexpectedEOF) {
-			err = io.EOF
-		}
+		// A read error is only reported when the data that was read before it
+		// is exhausted.
+		n, err = dec.reader.Read(dec.buffer[len(dec.buffer):cap(dec.buffer)])
+		dec.buffer = dec.buffer[:len(dec.buffer)+n]
 		dec.remain, n = skipSpacesN(dec.buffer)
 		dec.inputOffset += int64(n)
 		dec.err = err
-- 
2.43.0


From 3b9df6335f8d4f46760e4699f12fe155e30dae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 17/22] fix: report overflows of int, uint and uintptr on
 32-bit platforms

---
 decode.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/decode.go b/decode.go
index a650ca2..d78b0c4 100644
--- a/decode.go
+++ b/decode.go
@@ -49,6 +49,10 @@ func (d decoder) decodeInt(b []byte, p unsafe.Pointer) ([]byte, error) {
 		return r, err
 	}
 
+	if int64(int(v)) != v {
+		return r, unmarshalOverflow(b[:len(b)-len(r)], intType)
+	}
+
 	*(*int)(p) = int(v)
 	return r, nil
 }
@@ -131,6 +135,10 @@ func (d decoder) decodeUint(b []byte, p unsafe.Pointer) ([]byte, error) {
 		return r, err
 	}
 
+	if uint64(uint(v)) != v {
+		return r, unmarshalOverflow(b[:len(b)-len(r)], uintType)
+	}
+
 	*(*uint)(p) = uint(v)
 	return r, nil
 }
@@ -145,6 +153,10 @@ func (d decoder) decodeUintptr(b []byte, p unsafe.Pointer) ([]byte, error) {
 		return r, err
 	}
 
+	if uint64(uintptr(v)) != v {
+		return r, unmarshalOverflow(b[:len(b)-len(r)], uintptrType)
+	}
+
 	*(*uintptr)(p) = uintptr(v)
 	return r, nil
 }
-- 
2.43.0


From a66a02d6cea2254998695d70712cd0a0c6f914a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:54 +0000
Subject: [PATCH 18/22] fix: write no escape codes when Colors is the zero
 value

---
 json.go      | 4 ++++
 jsoncolor.go | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/json.go b/json.go
index f4f14e5..62159c5 100644
--- a/json.go
+++ b/json.go
@@ -120,6 +120,10 @@ const (
 // construct an [Indenter] via [NewIndenter] to indent the output. The clrs
 // argument may be nil to disable colorization.
 func Append(b []byte, x interface{}, flags AppendFlags, clrs *Colors, indentr *Indenter) ([]byte, error) {
+	if clrs.isZero() {
+		clrs = nil
+	}
+
 	if x == nil {
 		// Special case for nil values because it makes the rest of the code
 		// simpler to assume that it won't be seeing nil pointers.
diff --git a/jsoncolor.go b/jsoncolor.go
index 01c7312..8936d22 100644
--- a/jsoncolor.go
+++ b/jsoncolor.go
@@ -65,6 +65,14 @@ type Colors struct {
 	TextMarshaler Color
 }
 
+// isZero returns true if c does not define any color.
+func (c *Colors) isZero() bool {
+	return c == nil || len(c.Null) == 0 && len(c.Bool) == 0 && len(c.Number) == 0 &&
+		len(c.String) == 0 && len(c.Key) == 0 && len(c.Bytes) == 0 && len(c.Time) == 0 &&
+		len(c.Punc) == 0 && len(c.Brackets) == 0 && len(c.Braces) == 0 &&
+		len(c.Comma) == 0 && len(c.Colon) == 0 && len(c.TextMarshaler) == 0
+}
+
 // appendNull appends a colorized "null" to b.
 func (c *Colors) appendNull(b []byte) []byte {
 	if c == nil {
-- 
2.43.0


From 28d43e7acf778f4434c96ffd4fde04e51943ec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:14 +0000
Subject: [PATCH 19/22] fix: limit the nesting depth of JSON inputs

Deeply nested inputs exhausted the stack, which is fatal to the process.
The limit is the one of encoding/json.
---
 codec.go  |  5 ++++-
 decode.go | 24 ++++++++++++++++++++++++
 parse.go  | 33 +++++++++++++++++++++++++++------
 3 files changed, 55 insertions(+), 7 deletions(-)

diff --git a/codec.go b/codec.go
index 779c277..d80e15b 100644
--- a/codec.go
+++ b/codec.go
@@ -25,7 +25,10 @@ type encoder struct {
 	clrs    *Colors
 	indentr *Indenter
 }
-type decoder struct{ flags ParseFlags }
+type decoder struct {
+	flags ParseFlags
+	depth int
+}
 
 type (
 	encodeFunc func(encoder, []byte, unsafe.Pointer) ([]byte, error)
diff --git a/decode.go b/decode.go
index d78b0c4..5d639ab 100644
--- a/decode.go
+++ b/decode.go
@@ -522,6 +522,10 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 	if len(b) < 2 || b[0] != '[' {
 		return inputError(b, t)
 	}
+
+	if d.depth++; d.depth > maxNestingDepth {
+		return b, nestingError(b)
+	}
 	b = b[1:]
 
 	var err error
@@ -609,6 +613,10 @@ func (d decoder) decodeSlice(b []byte, p unsafe.Pointer, size uintptr, t reflect
 		return inputError(b, t)
 	}
 
+	if d.depth++; d.depth > maxNestingDepth {
+		return b, nestingError(b)
+	}
+
 	input := b
 	b = b[1:]
 
@@ -677,6 +685,10 @@ func (d decoder) decodeMap(b []byte, p unsafe.Pointer, t, kt, vt reflect.Type, k
 	if len(b) < 2 || b[0] != '{' {
 		return inputError(b, t)
 	}
+
+	if d.depth++; d.depth > maxNestingDepth {
+		return b, nestingError(b)
+	}
 	i := 0
 	m := reflect.NewAt(t, p).Elem()
 
@@ -759,6 +771,10 @@ func (d decoder) decodeMapStringInterface(b []byte, p unsafe.Pointer) ([]byte, e
 		return inputError(b, mapStringInterfaceType)
 	}
 
+	if d.depth++; d.depth > maxNestingDepth {
+		return b, nestingError(b)
+	}
+
 	m := *(*map[string]interface{})(p)
 	if m == nil {
 		m = make(map[string]interface{}, 64)
@@ -811,6 +827,10 @@ func (d decoder) decodeMapStringRawMessage(b []byte, p unsafe.Pointer) ([]byte,
 		return inputError(b, mapStringRawMessageType)
 	}
 
+	if d.depth++; d.depth > maxNestingDepth {
+		return b, nestingError(b)
+	}
+
 	m := *(*map[string]RawMessage)(p)
 	if m == nil {
 		m = make(map[string]RawMessage, 64)
@@ -896,6 +916,10 @@ func (d decoder) decodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 		return inputError(b, st.typ)
 	}
 
+	if d.depth++; d.depth > maxNestingDepth {
+		return b, nestingError(b)
+	}
+
 	var err error
 	var k []byte
 	var i int
diff --git a/parse.go b/parse.go
index 7efbadc..634b9d3 100644
--- a/parse.go
+++ b/parse.go
@@ -17,6 +17,15 @@ const (
 	cr = '\r'
 )
 
+// maxNestingDepth is the maximum nesting depth of arrays and objects in the
+// json input. The limit is the same as in encoding/json, it prevents inputs
+// from exhausting the stack.
+const maxNestingDepth = 10000
+
+func nestingError(b []byte) error {
+	return syntaxError(b, "exceeded max depth")
+}
+
 func skipSpaces(b []byte) []byte {
 	b, _ = skipSpacesN(b)
 	return b
@@ -542,7 +551,7 @@ func appendCoerceInvalidUTF8(b, s []byte) []byte {
 	return b
 }
 
-func parseObject(b []byte) ([]byte, []byte, error) {
+func parseObject(b []byte, depth int) ([]byte, []byte, error) {
 	if len(b) < 2 {
 		return nil, b[len(b):], unexpectedEOF(b)
 	}
@@ -551,6 +560,10 @@ func parseObject(b []byte) ([]byte, []byte, error) {
 		return nil, b, syntaxError(b, "expected '{' at the beginning of an object value")
 	}
 
+	if depth++; depth > maxNestingDepth {
+		return nil, b, nestingError(b)
+	}
+
 	var err error
 	a := b
 	n := len(b)
@@ -599,7 +612,7 @@ func parseObject(b []byte) ([]byte, []byte, error) {
 		}
 		b = skipSpaces(b[1:])
 
-		_, b, err = parseValue(b)
+		_, b, err = parseValueDepth(b, depth)
 		if err != nil {
 			return nil, b, err
 		}
@@ -608,7 +621,7 @@ func parseObject(b []byte) ([]byte, []byte, error) {
 	}
 }
 
-func parseArray(b []byte) ([]byte, []byte, error) {
+func parseArray(b []byte, depth int) ([]byte, []byte, error) {
 	if len(b) < 2 {
 		return nil, b[len(b):], unexpectedEOF(b)
 	}
@@ -617,6 +630,10 @@ func parseArray(b []byte) ([]byte, []byte, error) {
 		return nil, b, syntaxError(b, "expected '[' at the beginning of array value")
 	}
 
+	if depth++; depth > maxNestingDepth {
+		return nil, b, nestingError(b)
+	}
+
 	var err error
 	a := b
 	n := len(b)
@@ -651,7 +668,7 @@ func parseArray(b []byte) ([]byte, []byte, error) {
 			}
 		}
 
-		_, b, err = parseValue(b)
+		_, b, err = parseValueDepth(b, depth)
 		if err != nil {
 			return nil, b, err
 		}
@@ -661,12 +678,16 @@ func parseArray(b []byte) ([]byte, []byte, error) {
 }
 
 func parseValue(b []byte) ([]byte, []byte, error) {
+	return parseValueDepth(b, 0)
+}
+
+func parseValueDepth(b []byte, depth int) ([]byte, []byte, error) {
 	if len(b) != 0 {
 		switch b[0] {
 		case '{':
-			return parseObject(b)
+			return parseObject(b, depth)
 		case '[':
-			return parseArray(b)
+			return parseArray(b, depth)
 		case '"':
 			return parseString(b)
 		case 'n':
-- 
2.43.0


From f180cc2942c87c8b58be837f347677388c7fb2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:31 +0000
Subject: [PATCH 20/22] fix: support recursive types without structs

Constructing the codec of a type like 'type T []T' recursed until the
stack was exhausted, which is fatal to the process.
---
 codec.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/codec.go b/codec.go
index d80e15b..76c9632 100644
--- a/codec.go
+++ b/codec.go
@@ -119,6 +119,20 @@ func constructCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr b
 		return c
 	}
 
+	if t.Name() != "" {
+		switch t.Kind() {
+		case reflect.Array, reflect.Map, reflect.Pointer, reflect.Slice:
+			// Used for preventing infinite recursion on types that contain
+			// themselves without a struct in between.
+			if r := seen[t]; r != nil && r.canAddr == canAddr {
+				return constructRecursiveCodec(r)
+			}
+			r := &structType{typ: t, canAddr: canAddr}
+			seen[t] = r
+			defer func() { r.codec = c }()
+		}
+	}
+
 	switch t.Kind() {
 	case reflect.Bool:
 		c = codec{encode: encoder.encodeBool, decode: decoder.decodeBool}
@@ -215,6 +229,17 @@ func constructCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr b
 	return c
 }
 
+func constructRecursiveCodec(r *structType) codec {
+	return codec{
+		encode: func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) {
+			return r.codec.encode(e, b, p)
+		},
+		decode: func(d decoder, b []byte, p unsafe.Pointer) ([]byte, error) {
+			return r.codec.decode(d, b, p)
+		},
+	}
+}
+
 func constructStringCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr bool) codec {
 	c := constructCodec(t, seen, canAddr)
 	return codec{
@@ -994,6 +1019,10 @@ type structType struct {
 	fieldsIndex map[string]*structField
 	ficaseIndex map[string]*structField
 	typ         reflect.Type
+
+	// Only set on the entries of recursive types that are not structs.
+	canAddr bool
+	codec   codec
 }
 
 type structField struct {
-- 
2.43.0


From afe8c912e34f65e61af95b33d1125680340f1aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:36 +0000
Subject: [PATCH 21/22] fix: never colorize the output file of jc

---
 cmd/jc/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/jc/main.go b/cmd/jc/main.go
index 4b6061e..ea7b7fc 100644
--- a/cmd/jc/main.go
+++ b/cmd/jc/main.go
@@ -121,7 +121,9 @@ func doMain() error {
 
 	var enc *json.Encoder
 
-	if flagColorize != nil && *flagColorize && json.IsColorTerminal(out) {
+	// Note that IsColorTerminal can be forced to return true for any writer,
+	// but output to a file is never colorized.
+	if flagColorize != nil && *flagColorize && out == os.Stdout && json.IsColorTerminal(out) {
 		outFile, _ := out.(*os.File)
 		out = colorable.NewColorable(outFile) // colorable is needed for Windows
 		enc = json.NewEncoder(out)
-- 
2.43.0


From 4143e41707f235ed9e6ba6b5b8e40f8eae587060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:02 +0000
Subject: [PATCH 22/22] fix: keep the nesting depth when decoding into an
 interface

---
 decode.go | 6 +++---
 json.go   | 7 ++++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/decode.go b/decode.go
index 5d639ab..26c28a5 100644
--- a/decode.go
+++ b/decode.go
@@ -1048,7 +1048,7 @@ func (d decoder) decodeInterface(b []byte, p unsafe.Pointer) ([]byte, error) {
 			}
 		}
 
-		parsedBytes, err := Parse(b, val, d.flags)
+		parsedBytes, err := d.parse(b, val)
 		if err == nil {
 			*(*interface{})(p) = val
 		}
@@ -1120,10 +1120,10 @@ func (d decoder) decodeMaybeEmptyInterface(b []byte, p unsafe.Pointer, t reflect
 
 	if x := reflect.NewAt(t, p).Elem(); !x.IsNil() {
 		if e := x.Elem(); e.Kind() == reflect.Pointer {
-			return Parse(b, e.Interface(), d.flags)
+			return d.parse(b, e.Interface())
 		}
 	} else if t.NumMethod() == 0 { // empty interface
-		return Parse(b, (*interface{})(p), d.flags)
+		return d.parse(b, (*interface{})(p))
 	}
 
 	return d.decodeUnmarshalTypeError(b, p, t)
diff --git a/json.go b/json.go
index 62159c5..db923e1 100644
--- a/json.go
+++ b/json.go
@@ -216,6 +216,11 @@ func Unmarshal(b []byte, x interface{}) error {
 // Parse behaves like Unmarshal but the caller can pass a set of flags to
 // configure the parsing behavior.
 func Parse(b []byte, x interface{}, flags ParseFlags) ([]byte, error) {
+	return decoder{flags: flags}.parse(b, x)
+}
+
+// parse is like Parse, for a value nested d.depth levels deep.
+func (d decoder) parse(b []byte, x interface{}) ([]byte, error) {
 	t := reflect.TypeOf(x)
 	p := (*iface)(unsafe.Pointer(&x)).ptr
 
@@ -236,7 +241,7 @@ func Parse(b []byte, x interface{}, flags ParseFlags) ([]byte, error) {
 		c = constructCachedCodec(t, cache)
 	}
 
-	r, err := c.decode(decoder{flags: flags}, skipSpaces(b), p)
+	r, err := c.decode(d, skipSpaces(b), p)
 	return skipSpaces(r), err
 }
 
-- 
2.43.0

