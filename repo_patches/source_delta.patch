From 5a318612e495b4c62e1fb154d0124b674c217df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 01/87] fix: compact protocol could not read a false boolean
 field

---
 lib/go/src/thrift/tcompact_protocol.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 52a80af..2a29230 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -813,8 +813,7 @@ func (p *TCompactProtocol) getTType(t TCompactType) (TType, error) {
 	switch byte(t) & 0x0f {
 	case STOP:
 		return STOP, nil
-	case COMPACT_BOOLEAN_FALSE:
-	case COMPACT_BOOLEAN_TRUE:
+	case COMPACT_BOOLEAN_FALSE, COMPACT_BOOLEAN_TRUE:
 		return BOOL, nil
 	case COMPACT_BYTE:
 		return BYTE, nil
-- 
2.43.0


From 6aa591cd165bdac2475778bf6a6d3bd147c6253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 02/87] fix: compact protocol kept the field id of a finished
 struct on its stack when reading

---
 lib/go/src/thrift/tcompact_protocol.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 2a29230..8bed471 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -394,6 +394,7 @@ func (p *TCompactProtocol) ReadStructBegin() (name string, err TProtocolExceptio
 func (p *TCompactProtocol) ReadStructEnd() TProtocolException {
 	// consume the last field we read off the wire.
 	p.lastFieldId = p.lastField[len(p.lastField)-1]
+	p.lastField = p.lastField[:len(p.lastField)-1]
 	return nil
 }
 
-- 
2.43.0


From 98c32e898242075e0cc58070b4535c60811cdec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 03/87] fix: compact protocol lost the top bit of the message
 type, so oneway was misread

---
 lib/go/src/thrift/tcompact_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 8bed471..0edc231 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -357,7 +357,7 @@ func (p *TCompactProtocol) ReadMessageBegin() (name string, typeId TMessageType,
 	}
 	versionAndType, err := p.ReadByte()
 	version := versionAndType & COMPACT_VERSION_MASK
-	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x03)
+	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x07)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 4e38c894e8d24ab6a06a93a90d7f8518bfe14f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 04/87] fix: compact protocol panicked on fields and containers
 of type BINARY

---
 lib/go/src/thrift/tcompact_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 0edc231..92056a1 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -844,5 +844,5 @@ func (p *TCompactProtocol) getTType(t TCompactType) (TType, error) {
  * Given a TType value, find the appropriate TCompactProtocol.Types constant.
  */
 func (p *TCompactProtocol) getCompactType(t TType) TCompactType {
-	return _TTypeToCompactType[int(t)]
+	return _TTypeToCompactType[int(t.ThriftTypeId())]
 }
-- 
2.43.0


From 35102a60383ab1069ad9fba7129d026544e86920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 05/87] fix: JSON protocol did not recognise the i16 type name
 it writes

---
 lib/go/src/thrift/tjson_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 34ab7ca..bdabdbc 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -509,7 +509,7 @@ func (p *TJSONProtocol) StringToTypeId(fieldType string) TType {
 		return TType(BYTE)
 	case "dbl":
 		return TType(DOUBLE)
-	case "16":
+	case "i16":
 		return TType(I16)
 	case "i32":
 		return TType(I32)
-- 
2.43.0


From 71cd33d3a5f5de030b129e18882b8f9bddf915d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 06/87] fix: JSON protocol wrote an empty type name for BINARY

---
 lib/go/src/thrift/tjson_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index bdabdbc..7f72c06 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -460,7 +460,7 @@ func (p *TJSONProtocol) writeElemListBegin(elemType TType, size int) TProtocolEx
 }
 
 func (p *TJSONProtocol) TypeIdToString(fieldType TType) string {
-	switch byte(fieldType) {
+	switch fieldType.ThriftTypeId() {
 	case STOP:
 		return "stp"
 	case VOID:
-- 
2.43.0


From 25ec0a66a20522d80fcc535eca2600fb2769b816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:10 +0000
Subject: [PATCH 07/87] fix: JSON protocols took the end of the read buffer for
 the end of the data

---
 lib/go/src/thrift/tjson_protocol.go        |  8 ++---
 lib/go/src/thrift/tsimple_json_protocol.go | 34 +++++++++++++++-------
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 7f72c06..8af6893 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -241,11 +241,11 @@ func (p *TJSONProtocol) ReadStructEnd() TProtocolException {
 }
 
 func (p *TJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolException) {
-	if p.reader.Buffered() < 1 {
-		return "", STOP, -1, nil
+	b, e := p.peekSignificant()
+	if e != nil {
+		return "", STOP, -1, NewTProtocolExceptionFromOsError(e)
 	}
-	b, _ := p.reader.Peek(1)
-	if len(b) < 1 || b[0] == JSON_RBRACE[0] || b[0] == JSON_RBRACKET[0] {
+	if b[0] == JSON_RBRACE[0] || b[0] == JSON_RBRACKET[0] {
 		return "", STOP, -1, nil
 	}
 	fieldId, err := p.ReadI16()
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index ee7184b..7d273ca 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -337,9 +337,6 @@ func (p *TSimpleJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolE
 	if err := p.ParsePreValue(); err != nil {
 		return "", STOP, 0, err
 	}
-	if p.reader.Buffered() < 1 {
-		return "", STOP, 0, nil
-	}
 	b, _ := p.reader.Peek(1)
 	if len(b) > 0 {
 		switch b[0] {
@@ -731,14 +728,12 @@ func (p *TSimpleJSONProtocol) OutputElemListBegin(elemType TType, size int) TPro
 }
 
 func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
-	if e := p.readNonSignificantWhitespace(); e != nil {
+	// A value has to follow, so the next byte can be waited for.
+	b, e := p.peekSignificant()
+	if e != nil {
 		return NewTProtocolExceptionFromOsError(e)
 	}
 	cxt := _ParseContext(p.parseContextStack[len(p.parseContextStack)-1])
-	if p.reader.Buffered() < 1 {
-		return nil
-	}
-	b, _ := p.reader.Peek(1)
 	switch cxt {
 	case _CONTEXT_IN_LIST:
 		if len(b) > 0 {
@@ -747,7 +742,7 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 				return nil
 			case JSON_COMMA[0]:
 				p.reader.ReadByte()
-				if e := p.readNonSignificantWhitespace(); e != nil {
+				if _, e := p.peekSignificant(); e != nil {
 					return NewTProtocolExceptionFromOsError(e)
 				}
 				return nil
@@ -763,7 +758,7 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 				return nil
 			case JSON_COMMA[0]:
 				p.reader.ReadByte()
-				if e := p.readNonSignificantWhitespace(); e != nil {
+				if _, e := p.peekSignificant(); e != nil {
 					return NewTProtocolExceptionFromOsError(e)
 				}
 				return nil
@@ -777,7 +772,7 @@ func (p *TSimpleJSONProtocol) ParsePreValue() TProtocolException {
 			switch b[0] {
 			case JSON_COLON[0]:
 				p.reader.ReadByte()
-				if e := p.readNonSignificantWhitespace(); e != nil {
+				if _, e := p.peekSignificant(); e != nil {
 					return NewTProtocolExceptionFromOsError(e)
 				}
 				return nil
@@ -812,6 +807,23 @@ func (p *TSimpleJSONProtocol) ParsePostValue() TProtocolException {
 	return nil
 }
 
+// peekSignificant skips whitespace and returns the byte that follows it without
+// consuming it, waiting for input as necessary.
+func (p *TSimpleJSONProtocol) peekSignificant() ([]byte, error) {
+	for {
+		b, e := p.reader.Peek(1)
+		if len(b) < 1 {
+			return nil, e
+		}
+		switch b[0] {
+		case ' ', '\r', '\n', '\t':
+			p.reader.ReadByte()
+		default:
+			return b, nil
+		}
+	}
+}
+
 func (p *TSimpleJSONProtocol) readNonSignificantWhitespace() error {
 	for p.reader.Buffered() > 0 {
 		b, _ := p.reader.Peek(1)
-- 
2.43.0


From e8aba9d4af028a0c69e108f46e0b8aff84f83d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:09 +0000
Subject: [PATCH 08/87] fix: JSON protocols waited for bytes beyond the end of
 a message

---
 lib/go/src/thrift/tjson_protocol.go        | 15 +++++----
 lib/go/src/thrift/tsimple_json_protocol.go | 37 +++++++++++++++-------
 2 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 8af6893..8698e73 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -314,11 +314,12 @@ func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return value, err
 	}
-	b, _ := p.reader.Peek(len(JSON_FALSE))
+	b, _ := p.reader.Peek(1)
 	if len(b) > 0 {
 		switch b[0] {
 		case JSON_TRUE[0]:
-			if string(b[0:len(JSON_TRUE)]) == string(JSON_TRUE) {
+			b, _ = p.reader.Peek(len(JSON_TRUE))
+			if string(b) == string(JSON_TRUE) {
 				p.reader.Read(b[0:len(JSON_TRUE)])
 				value = true
 			} else {
@@ -326,7 +327,8 @@ func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
 			}
 			break
 		case JSON_FALSE[0]:
-			if string(b[0:len(JSON_FALSE)]) == string(JSON_FALSE) {
+			b, _ = p.reader.Peek(len(JSON_FALSE))
+			if string(b) == string(JSON_FALSE) {
 				p.reader.Read(b[0:len(JSON_FALSE)])
 				value = false
 			} else {
@@ -334,7 +336,8 @@ func (p *TJSONProtocol) ReadBool() (bool, TProtocolException) {
 			}
 			break
 		case JSON_NULL[0]:
-			if string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
+			b, _ = p.reader.Peek(len(JSON_NULL))
+			if string(b) == string(JSON_NULL) {
 				p.reader.Read(b[0:len(JSON_NULL)])
 				value = false
 			} else {
@@ -377,7 +380,7 @@ func (p *TJSONProtocol) ReadString() (string, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return v, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b := p.peekUpToNull()
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseStringBody()
@@ -401,7 +404,7 @@ func (p *TJSONProtocol) ReadBinary() ([]byte, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return nil, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b := p.peekUpToNull()
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseBase64EncodedBody()
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 7d273ca..e2fe059 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -425,11 +425,12 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return value, err
 	}
-	b, _ := p.reader.Peek(len(JSON_FALSE))
+	b, _ := p.reader.Peek(1)
 	if len(b) > 0 {
 		switch b[0] {
 		case JSON_TRUE[0]:
-			if string(b[0:len(JSON_TRUE)]) == string(JSON_TRUE) {
+			b, _ = p.reader.Peek(len(JSON_TRUE))
+			if string(b) == string(JSON_TRUE) {
 				p.reader.Read(b[0:len(JSON_TRUE)])
 				value = true
 			} else {
@@ -437,7 +438,8 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 			}
 			break
 		case JSON_FALSE[0]:
-			if string(b[0:len(JSON_FALSE)]) == string(JSON_FALSE) {
+			b, _ = p.reader.Peek(len(JSON_FALSE))
+			if string(b) == string(JSON_FALSE) {
 				p.reader.Read(b[0:len(JSON_FALSE)])
 				value = false
 			} else {
@@ -445,7 +447,8 @@ func (p *TSimpleJSONProtocol) ReadBool() (bool, TProtocolException) {
 			}
 			break
 		case JSON_NULL[0]:
-			if string(b[0:len(JSON_NULL)]) == string(JSON_NULL) {
+			b, _ = p.reader.Peek(len(JSON_NULL))
+			if string(b) == string(JSON_NULL) {
 				p.reader.Read(b[0:len(JSON_NULL)])
 				value = false
 			} else {
@@ -488,7 +491,7 @@ func (p *TSimpleJSONProtocol) ReadString() (string, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return v, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b := p.peekUpToNull()
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseStringBody()
@@ -512,7 +515,7 @@ func (p *TSimpleJSONProtocol) ReadBinary() ([]byte, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return nil, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b := p.peekUpToNull()
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
 		value, err := p.ParseBase64EncodedBody()
@@ -824,6 +827,16 @@ func (p *TSimpleJSONProtocol) peekSignificant() ([]byte, error) {
 	}
 }
 
+// peekUpToNull returns the next byte without consuming it, or the next four if
+// they may be the literal null. It does not wait for bytes that need not follow.
+func (p *TSimpleJSONProtocol) peekUpToNull() []byte {
+	b, _ := p.reader.Peek(1)
+	if len(b) > 0 && b[0] == JSON_NULL[0] {
+		b, _ = p.reader.Peek(len(JSON_NULL))
+	}
+	return b
+}
+
 func (p *TSimpleJSONProtocol) readNonSignificantWhitespace() error {
 	for p.reader.Buffered() > 0 {
 		b, _ := p.reader.Peek(1)
@@ -916,7 +929,7 @@ func (p *TSimpleJSONProtocol) ParseI64() (int64, bool, TProtocolException) {
 	}
 	var value int64
 	var isnull bool
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b := p.peekUpToNull()
 	if len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
 		p.reader.Read(b[0:len(JSON_NULL)])
 		isnull = true
@@ -939,7 +952,7 @@ func (p *TSimpleJSONProtocol) ParseF64() (float64, bool, TProtocolException) {
 	}
 	var value float64
 	var isnull bool
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b := p.peekUpToNull()
 	if len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
 		p.reader.Read(b[0:len(JSON_NULL)])
 		isnull = true
@@ -960,7 +973,7 @@ func (p *TSimpleJSONProtocol) ParseObjectStart() (bool, TProtocolException) {
 	if err := p.ParsePreValue(); err != nil {
 		return false, err
 	}
-	b, _ := p.reader.Peek(len(JSON_NULL))
+	b := p.peekUpToNull()
 	if len(b) > 0 && b[0] == JSON_LBRACE[0] {
 		p.reader.ReadByte()
 		p.parseContextStack = append(p.parseContextStack, int(_CONTEXT_IN_OBJECT_FIRST))
@@ -999,12 +1012,12 @@ func (p *TSimpleJSONProtocol) ParseListBegin() (bool, TProtocolException) {
 	if e := p.ParsePreValue(); e != nil {
 		return false, e
 	}
-	b, e := p.reader.Peek(len(JSON_NULL))
-	if e == nil && len(b) >= 1 && b[0] == JSON_LBRACKET[0] {
+	b := p.peekUpToNull()
+	if len(b) >= 1 && b[0] == JSON_LBRACKET[0] {
 		p.parseContextStack = append(p.parseContextStack, int(_CONTEXT_IN_LIST_FIRST))
 		p.reader.ReadByte()
 		return false, nil
-	} else if e == nil && len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
+	} else if len(b) >= len(JSON_NULL) && string(b) == string(JSON_NULL) {
 		return true, nil
 	}
 	return false, NewTProtocolException(INVALID_DATA, fmt.Sprintf("Expected 'null' or '{', received '%q'", b))
-- 
2.43.0


From 9b4b5442cd7c76dbeb39a20e4d40c0f489316d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 09/87] fix: JSON protocols misread NaN and infinities cut up
 by the transport

---
 lib/go/src/thrift/tsimple_json_protocol.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index e2fe059..5b6e660 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -1164,9 +1164,6 @@ func (p *TSimpleJSONProtocol) readIfNull() (bool, TProtocolException) {
 }
 
 func (p *TSimpleJSONProtocol) readQuoteIfNext() {
-	if p.reader.Buffered() < 1 {
-		return
-	}
 	b, _ := p.reader.Peek(1)
 	if len(b) > 0 && b[0] == JSON_QUOTE {
 		p.reader.ReadByte()
@@ -1225,7 +1222,7 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 			if buf.Len() == 0 {
 				buffer := make([]byte, len(JSON_NAN))
 				buffer[0] = c
-				_, e := p.reader.Read(buffer[1:])
+				_, e := io.ReadFull(p.reader, buffer[1:])
 				if e != nil {
 					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
 				}
@@ -1244,7 +1241,7 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 			if buf.Len() == 0 || (buf.Len() == 1 && buf.Bytes()[0] == '+') {
 				buffer := make([]byte, len(JSON_INFINITY))
 				buffer[0] = c
-				_, e := p.reader.Read(buffer[1:])
+				_, e := io.ReadFull(p.reader, buffer[1:])
 				if e != nil {
 					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
 				}
@@ -1260,7 +1257,7 @@ func (p *TSimpleJSONProtocol) readNumeric() (Numeric, TProtocolException) {
 				buffer := make([]byte, len(JSON_NEGATIVE_INFINITY))
 				buffer[0] = JSON_NEGATIVE_INFINITY[0]
 				buffer[1] = c
-				_, e := p.reader.Read(buffer[2:])
+				_, e := io.ReadFull(p.reader, buffer[2:])
 				if e != nil {
 					return NUMERIC_NULL, NewTProtocolExceptionFromOsError(e)
 				}
-- 
2.43.0


From 144e814c2db2f28e89fc875170a86aea71b183bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 10/87] fix: JSON protocols read a malformed string as an empty
 one

---
 lib/go/src/thrift/tsimple_json_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 5b6e660..3d8cfbc 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -871,7 +871,7 @@ func (p *TSimpleJSONProtocol) ParseStringBody() (string, TProtocolException) {
 	if i&0x01 == 1 {
 		v, ok := JsonUnquote(string(JSON_QUOTE) + line)
 		if !ok {
-			return "", NewTProtocolExceptionFromOsError(err)
+			return "", NewTProtocolException(INVALID_DATA, "Unable to parse as JSON string "+string(JSON_QUOTE)+line)
 		}
 		return v, nil
 	}
-- 
2.43.0


From faa1a4d2dd96e853f83ab9ff05cc62751700351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 11/87] fix: JSON protocol ignored write failures in binary
 values

---
 lib/go/src/thrift/tjson_protocol.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 8698e73..3ea64ff 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -187,13 +187,19 @@ func (p *TJSONProtocol) WriteBinary(v []byte) TProtocolException {
 	if e := p.OutputPreValue(); e != nil {
 		return e
 	}
-	p.writer.Write(JSON_QUOTE_BYTES)
+	if _, e := p.writer.Write(JSON_QUOTE_BYTES); e != nil {
+		return NewTProtocolExceptionFromOsError(e)
+	}
 	writer := base64.NewEncoder(base64.StdEncoding, p.writer)
 	if _, e := writer.Write(v); e != nil {
 		return NewTProtocolExceptionFromOsError(e)
 	}
-	writer.Close()
-	p.writer.Write(JSON_QUOTE_BYTES)
+	if e := writer.Close(); e != nil {
+		return NewTProtocolExceptionFromOsError(e)
+	}
+	if _, e := p.writer.Write(JSON_QUOTE_BYTES); e != nil {
+		return NewTProtocolExceptionFromOsError(e)
+	}
 	return p.OutputPostValue()
 }
 
-- 
2.43.0


From 9f5a45b3edfb44e0f0ffc0942ea9582a78bf4df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 12/87] fix: full reads failed although all bytes arrived, or
 succeeded with too few

---
 lib/go/src/thrift/ttransport.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/lib/go/src/thrift/ttransport.go b/lib/go/src/thrift/ttransport.go
index db384c6..d401d92 100644
--- a/lib/go/src/thrift/ttransport.go
+++ b/lib/go/src/thrift/ttransport.go
@@ -20,6 +20,7 @@
 package thrift
 
 import (
+	"io"
 	"log"
 	"os"
 	"strconv"
@@ -158,21 +159,32 @@ func (p* TTransportBase) Flush() error {
  * @return TTransportException if there was an error reading data
  */
 func ReadAllTransport(p TTransport, buf []byte) (n int, err error) {
-	ret := 0
 	size := len(buf)
+	empty := 0
 	for n < size {
-		ret, err = p.Read(buf[n:])
-		if ret <= 0 {
-			if err != nil {
-				err = NewTTransportExceptionDefaultString("Cannot read. Remote side has closed. Tried to read " + strconv.Itoa(size) + " bytes, but only got " + strconv.Itoa(n) + " bytes.")
-			}
-			return ret, err
+		ret, err := p.Read(buf[n:])
+		if ret > 0 {
+			n += ret
+			empty = 0
+		} else {
+			empty++
+		}
+		if n >= size {
+			break
+		}
+		if err == nil && empty >= maxConsecutiveEmptyReads {
+			err = io.ErrNoProgress
+		}
+		if err != nil {
+			typeId := NewTTransportExceptionFromOsError(err).TypeId()
+			return n, NewTTransportException(typeId, "Cannot read. Remote side has closed. Tried to read "+strconv.Itoa(size)+" bytes, but only got "+strconv.Itoa(n)+" bytes.")
 		}
-		n += ret
 	}
-	return n, err
+	return n, nil
 }
 
+const maxConsecutiveEmptyReads = 100
+
 var (
 	LOGGER *log.Logger
 )
-- 
2.43.0


From 9d677e541f906ec9543cf5d70b38955a29634479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 13/87] fix: framed transport hid read failures and took an
 empty frame for the end of the stream

---
 lib/go/src/thrift/tframed_transport.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index c1a78d2..462e5b0 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -65,16 +65,15 @@ func (p *TFramedTransport) Close() error {
 }
 
 func (p *TFramedTransport) Read(buf []byte) (int, error) {
-	if p.readBuffer.Len() > 0 {
-		got, err := p.readBuffer.Read(buf)
-		if got > 0 {
-			return got, NewTTransportExceptionFromOsError(err)
+	if len(buf) == 0 {
+		return 0, nil
+	}
+	// Read further frames until there is data
+	for p.readBuffer.Len() == 0 {
+		if _, err := p.readFrame(); err != nil {
+			return 0, NewTTransportExceptionFromOsError(err)
 		}
 	}
-
-	// Read another frame of data
-	p.readFrame()
-
 	got, err := p.readBuffer.Read(buf)
 	return got, NewTTransportExceptionFromOsError(err)
 }
-- 
2.43.0


From 6dfe1d6d38440247a919dada9f5b59186f6c1485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:53 +0000
Subject: [PATCH 14/87] fix: framed transport sent the rest of a failed frame
 as a frame of its own

---
 lib/go/src/thrift/tframed_transport.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index 462e5b0..d7d9853 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -88,6 +88,8 @@ func (p *TFramedTransport) Write(buf []byte) (int, error) {
 }
 
 func (p *TFramedTransport) Flush() error {
+	// What a failed flush could not send must not turn up in a later frame.
+	defer p.writeBuffer.Reset()
 	size := p.writeBuffer.Len()
 	buf := []byte{0, 0, 0, 0}
 	binary.BigEndian.PutUint32(buf, uint32(size))
-- 
2.43.0


From 6a400ea0cb46faf100643dd41960aef51dda47fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 15/87] fix: stream transport panicked when nothing was to be
 written

---
 lib/go/src/thrift/tiostream_transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tiostream_transport.go b/lib/go/src/thrift/tiostream_transport.go
index 0195da5..475633f 100644
--- a/lib/go/src/thrift/tiostream_transport.go
+++ b/lib/go/src/thrift/tiostream_transport.go
@@ -204,7 +204,7 @@ func (p *TIOStreamTransport) Write(buf []byte) (int, error) {
 		return 0, NewTTransportException(NOT_OPEN, "Cannot write to null outputStream")
 	}
 	n, err := p.Writer.Write(buf)
-	if n == 0 || err != nil {
+	if err != nil {
 		LOGGER.Print("Error writing to iostream, only wrote ", n, " bytes: ", err.Error(), "\n")
 	}
 	return n, NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From f7dbdcbdbf021c091df5101c8c1f9fd2ef1be7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:15 +0000
Subject: [PATCH 16/87] fix: stream transport kept writing to a stream after
 closing it

---
 lib/go/src/thrift/tiostream_transport.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tiostream_transport.go b/lib/go/src/thrift/tiostream_transport.go
index 475633f..071ec58 100644
--- a/lib/go/src/thrift/tiostream_transport.go
+++ b/lib/go/src/thrift/tiostream_transport.go
@@ -167,9 +167,9 @@ func (p *TIOStreamTransport) Close() error {
 		}
 		p.Reader = nil
 	}
-	if p.Writer != nil && (!closedReader || !p.IsReadWriter) {
+	if p.Writer != nil {
 		c, ok := p.Writer.(io.Closer)
-		if ok {
+		if ok && (!closedReader || !p.IsReadWriter) {
 			e := c.Close()
 			if e != nil {
 				LOGGER.Print("Error closing output stream.", e)
-- 
2.43.0


From 3c1ad45851714fab31b95695115f0d617de892bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:41 +0000
Subject: [PATCH 17/87] fix: binary, compact and framed readers allocated
 whatever size the input claimed, and compact ignored missing bytes

---
 lib/go/src/thrift/tbinary_protocol.go  |  7 ++-----
 lib/go/src/thrift/tcompact_protocol.go |  5 ++---
 lib/go/src/thrift/tframed_transport.go |  5 ++---
 lib/go/src/thrift/ttransport.go        | 15 +++++++++++++++
 4 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/lib/go/src/thrift/tbinary_protocol.go b/lib/go/src/thrift/tbinary_protocol.go
index 424fd84..4e241ba 100644
--- a/lib/go/src/thrift/tbinary_protocol.go
+++ b/lib/go/src/thrift/tbinary_protocol.go
@@ -436,8 +436,7 @@ func (p *TBinaryProtocol) ReadBinary() ([]byte, TProtocolException) {
 	if e != nil {
 		return nil, e
 	}
-	buf := make([]byte, isize)
-	_, err := p.trans.ReadAll(buf)
+	buf, err := readBytes(p.trans, isize)
 	return buf, NewTProtocolExceptionFromOsError(err)
 }
 
@@ -485,8 +484,6 @@ func (p *TBinaryProtocol) readStringBody(size int) (value string, err TProtocolE
 	if err != nil {
 		return "", err
 	}
-	isize := int(size)
-	buf := make([]byte, isize)
-	_, e := p.trans.ReadAll(buf)
+	buf, e := readBytes(p.trans, size)
 	return string(buf), NewTProtocolExceptionFromOsError(e)
 }
diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 92056a1..097a5e1 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -602,9 +602,8 @@ func (p *TCompactProtocol) ReadBinary() (value []byte, err TProtocolException) {
 		return []byte{}, nil
 	}
 
-	buf := make([]byte, length)
-	p.trans.ReadAll(buf)
-	return buf, nil
+	buf, err2 := readBytes(p.trans, int(length))
+	return buf, NewTProtocolExceptionFromOsError(err2)
 }
 
 func (p *TCompactProtocol) Flush() (err TProtocolException) {
diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index d7d9853..f362066 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -122,10 +122,9 @@ func (p *TFramedTransport) readFrame() (int, error) {
 	if size == 0 {
 		return 0, nil
 	}
-	buf2 := make([]byte, size)
-	n, err := p.transport.ReadAll(buf2)
+	buf2, err := readBytes(p.transport, size)
 	if err != nil {
-		return n, err
+		return len(buf2), err
 	}
 	p.readBuffer = bytes.NewBuffer(buf2)
 	return size, nil
diff --git a/lib/go/src/thrift/ttransport.go b/lib/go/src/thrift/ttransport.go
index d401d92..0b47daf 100644
--- a/lib/go/src/thrift/ttransport.go
+++ b/lib/go/src/thrift/ttransport.go
@@ -185,6 +185,21 @@ func ReadAllTransport(p TTransport, buf []byte) (n int, err error) {
 
 const maxConsecutiveEmptyReads = 100
 
+// readBytes reads exactly size bytes. Memory is allocated as data arrives, so
+// that a bogus size does not exhaust it.
+func readBytes(trans TTransport, size int) ([]byte, error) {
+	const chunk = 1 << 16
+	buf := make([]byte, 0, min(size, chunk))
+	for len(buf) < size {
+		start := len(buf)
+		buf = append(buf, make([]byte, min(size-start, chunk))...)
+		if n, err := trans.ReadAll(buf[start:]); err != nil {
+			return buf[:start+n], err
+		}
+	}
+	return buf, nil
+}
+
 var (
 	LOGGER *log.Logger
 )
-- 
2.43.0


From d9b0f9bfeecd3df0f6daf2fabad041e373a74f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 18/87] fix: negative sizes of strings and containers were
 accepted or caused a panic

---
 lib/go/src/thrift/tbinary_protocol.go      | 13 ++++++++-----
 lib/go/src/thrift/tcompact_protocol.go     |  9 +++++++++
 lib/go/src/thrift/tjson_protocol.go        | 10 ++++++++--
 lib/go/src/thrift/tprotocol.go             | 12 ++++++++++++
 lib/go/src/thrift/tsimple_json_protocol.go | 10 ++++++++--
 5 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/lib/go/src/thrift/tbinary_protocol.go b/lib/go/src/thrift/tbinary_protocol.go
index 4e241ba..d855a11 100644
--- a/lib/go/src/thrift/tbinary_protocol.go
+++ b/lib/go/src/thrift/tbinary_protocol.go
@@ -328,7 +328,7 @@ func (p *TBinaryProtocol) ReadMapBegin() (kType, vType TType, size int, err TPro
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
-	return kType, vType, size, nil
+	return kType, vType, size, checkSize(size)
 }
 
 func (p *TBinaryProtocol) ReadMapEnd() TProtocolException {
@@ -348,7 +348,7 @@ func (p *TBinaryProtocol) ReadListBegin() (elemType TType, size int, err TProtoc
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
-	return elemType, size, nil
+	return elemType, size, checkSize(size)
 }
 
 func (p *TBinaryProtocol) ReadListEnd() TProtocolException {
@@ -368,7 +368,7 @@ func (p *TBinaryProtocol) ReadSetBegin() (elemType TType, size int, err TProtoco
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
-	return elemType, size, nil
+	return elemType, size, checkSize(size)
 }
 
 func (p *TBinaryProtocol) ReadSetEnd() TProtocolException {
@@ -432,6 +432,9 @@ func (p *TBinaryProtocol) ReadBinary() ([]byte, TProtocolException) {
 		return nil, e
 	}
 	isize := int(size)
+	if e = checkSize(isize); e != nil {
+		return nil, e
+	}
 	e = p.checkReadLength(isize)
 	if e != nil {
 		return nil, e
@@ -477,8 +480,8 @@ func (p *TBinaryProtocol) checkReadLength(length int) TProtocolException {
 }
 
 func (p *TBinaryProtocol) readStringBody(size int) (value string, err TProtocolException) {
-	if size < 0 {
-		return "", nil
+	if err = checkSize(size); err != nil {
+		return "", err
 	}
 	err = p.checkReadLength(size)
 	if err != nil {
diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 097a5e1..5dd5e22 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -456,6 +456,9 @@ func (p *TCompactProtocol) ReadMapBegin() (keyType TType, valueType TType, size
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if err = checkSize(size); err != nil {
+		return
+	}
 	keyAndValueType := byte(STOP)
 	if size != 0 {
 		keyAndValueType, err = p.ReadByte()
@@ -490,6 +493,9 @@ func (p *TCompactProtocol) ReadListBegin() (elemType TType, size int, err TProto
 		}
 		size = int(size2)
 	}
+	if err = checkSize(size); err != nil {
+		return
+	}
 	elemType, e := p.getTType(TCompactType(size_and_type))
 	if e != nil {
 		err = NewTProtocolExceptionFromOsError(e)
@@ -602,6 +608,9 @@ func (p *TCompactProtocol) ReadBinary() (value []byte, err TProtocolException) {
 		return []byte{}, nil
 	}
 
+	if err = checkSize(int(length)); err != nil {
+		return []byte{}, err
+	}
 	buf, err2 := readBytes(p.trans, int(length))
 	return buf, NewTProtocolExceptionFromOsError(err2)
 }
diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 3ea64ff..fb161de 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -292,7 +292,10 @@ func (p *TJSONProtocol) ReadMapBegin() (keyType TType, valueType TType, size int
 	// read size
 	iSize, err := p.ReadI64()
 	size = int(iSize)
-	return keyType, valueType, size, err
+	if err != nil {
+		return keyType, valueType, size, err
+	}
+	return keyType, valueType, size, checkSize(size)
 }
 
 func (p *TJSONProtocol) ReadMapEnd() TProtocolException {
@@ -452,7 +455,10 @@ func (p *TJSONProtocol) readElemListBegin() (elemType TType, size int, e TProtoc
 	}
 	nSize, err2 := p.ReadI64()
 	size = int(nSize)
-	return elemType, size, err2
+	if err2 != nil {
+		return elemType, size, err2
+	}
+	return elemType, size, checkSize(size)
 }
 
 func (p *TJSONProtocol) writeElemListBegin(elemType TType, size int) TProtocolException {
diff --git a/lib/go/src/thrift/tprotocol.go b/lib/go/src/thrift/tprotocol.go
index 2ea8b97..26d5095 100644
--- a/lib/go/src/thrift/tprotocol.go
+++ b/lib/go/src/thrift/tprotocol.go
@@ -19,6 +19,10 @@
 
 package thrift
 
+import (
+	"strconv"
+)
+
 const (
 	VERSION_MASK = 0xffff0000
 	VERSION_1    = 0x80010000
@@ -76,6 +80,14 @@ type TProtocol interface {
 	Transport() TTransport
 }
 
+// checkSize refuses negative sizes of strings and containers.
+func checkSize(size int) TProtocolException {
+	if size < 0 {
+		return NewTProtocolException(NEGATIVE_SIZE, "Negative size: "+strconv.Itoa(size))
+	}
+	return nil
+}
+
 /**
  * The maximum recursive depth the skip() function will traverse before
  * throwing a TException.
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 3d8cfbc..18dbf4b 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -397,7 +397,10 @@ func (p *TSimpleJSONProtocol) ReadMapBegin() (keyType TType, valueType TType, si
 	// read size
 	iSize, err := p.ReadI64()
 	size = int(iSize)
-	return keyType, valueType, size, err
+	if err != nil {
+		return keyType, valueType, size, err
+	}
+	return keyType, valueType, size, checkSize(size)
 }
 
 func (p *TSimpleJSONProtocol) ReadMapEnd() TProtocolException {
@@ -1034,7 +1037,10 @@ func (p *TSimpleJSONProtocol) ParseElemListBegin() (elemType TType, size int, e
 	}
 	nSize, err2 := p.ReadI64()
 	size = int(nSize)
-	return elemType, size, err2
+	if err2 != nil {
+		return elemType, size, err2
+	}
+	return elemType, size, checkSize(size)
 }
 
 func (p *TSimpleJSONProtocol) ParseListEnd() TProtocolException {
-- 
2.43.0


From e851f5abafbb1c5da1399e61b8243ac041483ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 19/87] fix: compact protocol read integers of unlimited length

---
 lib/go/src/thrift/tcompact_protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 5dd5e22..1ec1b3a 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -764,6 +764,9 @@ func (p *TCompactProtocol) readVarint64() (int64, error) {
 			break
 		}
 		shift += 7
+		if shift >= 70 {
+			return 0, NewTProtocolException(INVALID_DATA, "Variable-length int over 10 bytes.")
+		}
 	}
 	return result, nil
 }
-- 
2.43.0


From d03dc375b85341bb3177dd4a0ac9ad10566f3d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 20/87] fix: compact protocol ignored unknown types in maps and
 a failed first read

---
 lib/go/src/thrift/tcompact_protocol.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 1ec1b3a..14f5e97 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -351,6 +351,9 @@ func (p *TCompactProtocol) WriteBinary(bin []byte) TProtocolException {
  */
 func (p *TCompactProtocol) ReadMessageBegin() (name string, typeId TMessageType, seqId int32, err TProtocolException) {
 	protocolId, err := p.ReadByte()
+	if err != nil {
+		return "", typeId, seqId, err
+	}
 	if protocolId != COMPACT_PROTOCOL_ID {
 		s := fmt.Sprintf("Expected protocol id %02x but got %02x", COMPACT_PROTOCOL_ID, protocolId)
 		return "", typeId, seqId, NewTProtocolException(BAD_VERSION, s)
@@ -466,8 +469,16 @@ func (p *TCompactProtocol) ReadMapBegin() (keyType TType, valueType TType, size
 			return
 		}
 	}
-	keyType, _ = p.getTType(TCompactType(keyAndValueType >> 4))
-	valueType, _ = p.getTType(TCompactType(keyAndValueType & 0xf))
+	keyType, e = p.getTType(TCompactType(keyAndValueType >> 4))
+	if e != nil {
+		err = NewTProtocolExceptionFromOsError(e)
+		return
+	}
+	valueType, e = p.getTType(TCompactType(keyAndValueType & 0xf))
+	if e != nil {
+		err = NewTProtocolExceptionFromOsError(e)
+		return
+	}
 	return
 }
 
-- 
2.43.0


From c079e137d0f862743903d964e57fd90b88dc3a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:14 +0000
Subject: [PATCH 21/87] fix: skipping ignored errors, the depth limit and
 unknown types

---
 lib/go/src/thrift/tprotocol.go | 61 ++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/lib/go/src/thrift/tprotocol.go b/lib/go/src/thrift/tprotocol.go
index 26d5095..e161002 100644
--- a/lib/go/src/thrift/tprotocol.go
+++ b/lib/go/src/thrift/tprotocol.go
@@ -130,9 +130,13 @@ func SkipDefaultDepth(prot TProtocol, typeId TType) (err TProtocolException) {
  *   recursive depth, to prevent Java stack overflow.
  */
 func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException) {
-	switch fieldType {
-	case STOP:
+	if fieldType == STOP {
 		return
+	}
+	if maxDepth <= 0 {
+		return NewTProtocolException(SIZE_LIMIT, "Maximum skip depth exceeded")
+	}
+	switch fieldType {
 	case BOOL:
 		_, err = self.ReadBool()
 		return
@@ -154,6 +158,9 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 	case STRING:
 		_, err = self.ReadString()
 		return
+	case BINARY:
+		_, err = self.ReadBinary()
+		return
 	case STRUCT:
 		{
 			_, err = self.ReadStructBegin()
@@ -161,52 +168,70 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 				return
 			}
 			for {
-				_, typeId, _, _ := self.ReadFieldBegin()
+				_, typeId, _, err := self.ReadFieldBegin()
+				if err != nil {
+					return err
+				}
 				if typeId == STOP {
 					break
 				}
-				Skip(self, typeId, maxDepth-1)
-				self.ReadFieldEnd()
+				if err = Skip(self, typeId, maxDepth-1); err != nil {
+					return err
+				}
+				if err = self.ReadFieldEnd(); err != nil {
+					return err
+				}
 			}
 			return self.ReadStructEnd()
 		}
 	case MAP:
 		{
-			keyType, valueType, l, err := self.ReadMapBegin()
+			keyType, valueType, size, err := self.ReadMapBegin()
 			if err != nil {
 				return err
 			}
-			size := int(l)
-			for i := 0; i < size; i++ {
-				Skip(self, keyType, maxDepth-1)
-				self.Skip(valueType)
+			if err = skipElements(self, size, maxDepth-1, keyType, valueType); err != nil {
+				return err
 			}
 			return self.ReadMapEnd()
 		}
 	case SET:
 		{
-			elemType, l, err := self.ReadSetBegin()
+			elemType, size, err := self.ReadSetBegin()
 			if err != nil {
 				return err
 			}
-			size := int(l)
-			for i := 0; i < size; i++ {
-				Skip(self, elemType, maxDepth-1)
+			if err = skipElements(self, size, maxDepth-1, elemType); err != nil {
+				return err
 			}
 			return self.ReadSetEnd()
 		}
 	case LIST:
 		{
-			elemType, l, err := self.ReadListBegin()
+			elemType, size, err := self.ReadListBegin()
 			if err != nil {
 				return err
 			}
-			size := int(l)
-			for i := 0; i < size; i++ {
-				Skip(self, elemType, maxDepth-1)
+			if err = skipElements(self, size, maxDepth-1, elemType); err != nil {
+				return err
 			}
 			return self.ReadListEnd()
 		}
 	}
+	return NewTProtocolException(INVALID_DATA, "Cannot skip a value of unknown type "+strconv.Itoa(int(fieldType)))
+}
+
+// skipElements skips size times values of the given types in turn.
+func skipElements(self TProtocol, size, maxDepth int, types ...TType) TProtocolException {
+	for i := 0; i < size; i++ {
+		for _, t := range types {
+			if t == STOP {
+				return NewTProtocolException(INVALID_DATA, "Container elements have no type")
+			}
+			if err := Skip(self, t, maxDepth); err != nil {
+				return err
+			}
+		}
+	}
 	return nil
 }
-- 
2.43.0


From 4ec8ee7edd256851274e3cbd27fb3bc32828e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:22 +0000
Subject: [PATCH 22/87] fix: socket sent unflushed bytes of a closed connection
 on the next one

---
 lib/go/src/thrift/tsocket.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/go/src/thrift/tsocket.go b/lib/go/src/thrift/tsocket.go
index 257aff0..78df554 100644
--- a/lib/go/src/thrift/tsocket.go
+++ b/lib/go/src/thrift/tsocket.go
@@ -178,6 +178,8 @@ func (p *TSocket) Close() error {
 			return err
 		}
 		p.conn = nil
+		// What was not flushed must not be sent on the next connection
+		p.writeBuffer.Reset()
 	}
 	return nil
 }
-- 
2.43.0


From 53af8bc9a93f15a5a81a9c86b2671ef1c470cf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:24 +0000
Subject: [PATCH 23/87] fix: HTTP client stayed open for writing when closed
 after a response

---
 lib/go/src/thrift/thttp_client.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index ddbc74e..4c3d36f 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -102,15 +102,19 @@ func (p *THttpClient) Peek() bool {
 }
 
 func (p *THttpClient) Close() error {
+	if p.requestBuffer != nil {
+		p.requestBuffer.Reset()
+		p.requestBuffer = nil
+	}
+	return p.closeResponse()
+}
+
+func (p *THttpClient) closeResponse() error {
 	if p.response != nil && p.response.Body != nil {
 		err := p.response.Body.Close()
 		p.response = nil
 		return err
 	}
-	if p.requestBuffer != nil {
-		p.requestBuffer.Reset()
-		p.requestBuffer = nil
-	}
 	return nil
 }
 
-- 
2.43.0


From 3c23f4b39118d2dd7682d6b46685b9dd610efa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:26 +0000
Subject: [PATCH 24/87] fix: HTTP client panicked when written to or flushed
 while not open for writing

---
 lib/go/src/thrift/thttp_client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index 4c3d36f..1924567 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -131,11 +131,17 @@ func (p *THttpClient) ReadAll(buf []byte) (int, error) {
 }
 
 func (p *THttpClient) Write(buf []byte) (int, error) {
+	if p.requestBuffer == nil {
+		return 0, NewTTransportException(NOT_OPEN, "HTTP client is not open for writing.")
+	}
 	n, err := p.requestBuffer.Write(buf)
 	return n, err
 }
 
 func (p *THttpClient) Flush() error {
+	if p.requestBuffer == nil {
+		return NewTTransportException(NOT_OPEN, "HTTP client is not open for writing.")
+	}
 	response, err := http.Post(p.url.String(), "application/x-thrift", p.requestBuffer)
 	if err != nil {
 		return NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From 6d9edd351996ca7cb495cd78a462fb11b1db32cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:29 +0000
Subject: [PATCH 25/87] fix: HTTP client served an earlier response after a
 failed request and leaked responses

---
 lib/go/src/thrift/thttp_client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index 1924567..4df516a 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -142,12 +142,15 @@ func (p *THttpClient) Flush() error {
 	if p.requestBuffer == nil {
 		return NewTTransportException(NOT_OPEN, "HTTP client is not open for writing.")
 	}
+	// Whatever becomes of this request, the previous response is not its answer
+	p.closeResponse()
 	response, err := http.Post(p.url.String(), "application/x-thrift", p.requestBuffer)
 	if err != nil {
 		return NewTTransportExceptionFromOsError(err)
 	}
 	if response.StatusCode != http.StatusOK {
 		// TODO(pomack) log bad response
+		response.Body.Close()
 		return NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "HTTP Response code: "+strconv.Itoa(response.StatusCode))
 	}
 	p.response = response
-- 
2.43.0


From 408d3990a61abcfe420f5621b265cfbad65fce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:31 +0000
Subject: [PATCH 26/87] fix: HTTP client sent the bytes of a failed request
 again with the next one

---
 lib/go/src/thrift/thttp_client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index 4df516a..d08f261 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -144,7 +144,10 @@ func (p *THttpClient) Flush() error {
 	}
 	// Whatever becomes of this request, the previous response is not its answer
 	p.closeResponse()
-	response, err := http.Post(p.url.String(), "application/x-thrift", p.requestBuffer)
+	// A failed request must not leave bytes behind for the next one
+	body := p.requestBuffer
+	p.requestBuffer = bytes.NewBuffer(make([]byte, 0, 1024))
+	response, err := http.Post(p.url.String(), "application/x-thrift", body)
 	if err != nil {
 		return NewTTransportExceptionFromOsError(err)
 	}
-- 
2.43.0


From 03805509ea727fb4245b3917f680d1c751f89f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:51 +0000
Subject: [PATCH 27/87] fix: flushing a socket timed out when its timeout had
 passed since the last write

---
 lib/go/src/thrift/tsocket.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/go/src/thrift/tsocket.go b/lib/go/src/thrift/tsocket.go
index 78df554..0e4962a 100644
--- a/lib/go/src/thrift/tsocket.go
+++ b/lib/go/src/thrift/tsocket.go
@@ -214,6 +214,7 @@ func (p *TSocket) Flush() error {
 	if !p.IsOpen() {
 		return NewTTransportException(NOT_OPEN, "Connection not open")
 	}
+	p.pushDeadline(false, true)
 	_, err := p.writeBuffer.WriteTo(p.conn)
 	return NewTTransportExceptionFromOsError(err)
 }
-- 
2.43.0


From 70485643b49a371e5245012ae4a20c77f035f2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:13 +0000
Subject: [PATCH 28/87] fix: setting the position just past the end of a list
 panicked instead of appending

---
 lib/go/src/thrift/tlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index 6fb4184..932d189 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -74,7 +74,7 @@ func (p *tList) Set(i int, data interface{}) {
 		p.elemType = TypeFromValue(data)
 	}
 	if data, ok := p.elemType.CoerceData(data); ok {
-		if len(p.l) >= i {
+		if i < len(p.l) {
 			p.l[i] = data
 		} else {
 			p.l = append(p.l, data)
-- 
2.43.0


From 340753d6144364c790708167461cf7e7e8d72d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:15 +0000
Subject: [PATCH 29/87] fix: inserting into a list did not convert to the
 element type

---
 lib/go/src/thrift/tlist.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index 932d189..1495624 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -105,6 +105,13 @@ func (p *tList) Swap(i, j int) {
 }
 
 func (p *tList) Insert(i int, data interface{}) {
+	if p.elemType.IsEmptyType() {
+		p.elemType = TypeFromValue(data)
+	}
+	data, ok := p.elemType.CoerceData(data)
+	if !ok {
+		return
+	}
 	newl := make([]interface{}, 1)
 	newl[0] = data
 	p.l = append(p.l[:i], append(newl, p.l[i:]...)...)
-- 
2.43.0


From cc2d6f837e8073d19968e0cf973404e404e065d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:17 +0000
Subject: [PATCH 30/87] fix: less-than of types, sets and maps was
 greater-than, that of list elements whether they compare

---
 lib/go/src/thrift/tlist.go | 4 ++--
 lib/go/src/thrift/tmap.go  | 2 +-
 lib/go/src/thrift/tset.go  | 2 +-
 lib/go/src/thrift/ttype.go | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index 1495624..d56c06b 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -126,8 +126,8 @@ func (p *tList) Contains(data interface{}) bool {
 }
 
 func (p *tList) Less(i, j int) bool {
-	_, less := p.elemType.Compare(p.l[i], p.l[j])
-	return less
+	cmp, ok := p.elemType.Compare(p.l[i], p.l[j])
+	return ok && cmp < 0
 }
 
 func (p *tList) Iter() <-chan interface{} {
diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index 824a339..f2307e7 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -735,7 +735,7 @@ func (p *tMap) ValueIter() <-chan interface{} {
 
 func (p *tMap) Less(other interface{}) bool {
 	cmp, ok := p.CompareTo(other)
-	return ok && cmp > 0
+	return ok && cmp < 0
 }
 
 func (p *tMap) Equals(other interface{}) bool {
diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index ec9a29b..3c393de 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -103,7 +103,7 @@ func (p *tSet) Remove(data interface{}) {
 
 func (p *tSet) Less(other interface{}) bool {
 	cmp, ok := p.CompareTo(other)
-	return ok && cmp > 0
+	return ok && cmp < 0
 }
 
 func (p *tSet) Equals(other interface{}) bool {
diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 32ef8ea..8dfb57c 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -254,7 +254,7 @@ func (p TType) LessType(other interface{}) bool {
 
 func (p TType) Less(i, j interface{}) bool {
 	cmp, ok := p.Compare(i, j)
-	return ok && cmp > 0
+	return ok && cmp < 0
 }
 
 func (p TType) Compare(i, j interface{}) (int, bool) {
-- 
2.43.0


From 56e57245cbec1a29edbbe5dcf19c606cacbeb7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:18 +0000
Subject: [PATCH 31/87] fix: empty sets and maps reported their size hint as
 their length

---
 lib/go/src/thrift/tmap.go | 7 +++----
 lib/go/src/thrift/tset.go | 8 ++------
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index f2307e7..8e4032d 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -54,7 +54,6 @@ type TMapElem interface {
 type tMap struct {
 	keyType   TType
 	valueType TType
-	size      int
 	l         *list.List
 	b         map[bool]interface{}
 	i08       map[byte]interface{}
@@ -83,7 +82,7 @@ func NewTMapElem(k, v interface{}) TMapElem {
 }
 
 func NewTMap(k, v TType, s int) TMap {
-	return &tMap{keyType: k, valueType: v, size: s, l: list.New()}
+	return &tMap{keyType: k, valueType: v, l: list.New()}
 }
 
 func NewTMapDefault() TMap {
@@ -120,9 +119,9 @@ func (p *tMap) Len() int {
 	case STRING, UTF8, UTF16:
 		return len(p.s)
 	default:
-		return p.size
+		return 0
 	}
-	return p.size
+	return 0
 }
 
 func (p *tMap) Get(key interface{}) (interface{}, bool) {
diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index 3c393de..6264da9 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -42,12 +42,11 @@ type TSet interface {
 
 type tSet struct {
 	elemType TType
-	size     int
 	l        *list.List
 }
 
 func NewTSet(t TType, s int) TSet {
-	return &tSet{elemType: t, size: s, l: list.New()}
+	return &tSet{elemType: t, l: list.New()}
 }
 
 func NewTSetDefault() TSet {
@@ -67,10 +66,7 @@ func (p *tSet) Back() *list.Element {
 }
 
 func (p *tSet) Len() int {
-	if p.l.Len() != 0 {
-		return p.l.Len()
-	}
-	return p.size
+	return p.l.Len()
 }
 
 func (p *tSet) Contains(data interface{}) bool {
-- 
2.43.0


From 722c5c9333395934b7725beb274c0190b0cb2621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:21 +0000
Subject: [PATCH 32/87] fix: a set made without an element type stored nothing
 but nil

---
 lib/go/src/thrift/tset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index 6264da9..41da340 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -74,6 +74,9 @@ func (p *tSet) Contains(data interface{}) bool {
 }
 
 func (p *tSet) Add(other interface{}) {
+	if p.elemType.IsEmptyType() {
+		p.elemType = TypeFromValue(other)
+	}
 	if data, ok := p.elemType.CoerceData(other); ok {
 		if p.l.Front() == nil {
 			p.l.PushFront(data)
-- 
2.43.0


From c83286d01ba24d0e30a2b96ab0d9febe3eb22e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:22 +0000
Subject: [PATCH 33/87] fix: adding a value smaller than all others to a set
 did nothing

---
 lib/go/src/thrift/tset.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index 41da340..bea207c 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -89,6 +89,7 @@ func (p *tSet) Add(other interface{}) {
 					return
 				}
 			}
+			p.l.PushBack(data)
 		}
 	}
 }
-- 
2.43.0


From 1f4f9a1ae39451c971811488edccac4067611d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:24 +0000
Subject: [PATCH 34/87] fix: a map with boolean keys reported an absent key as
 present

---
 lib/go/src/thrift/tmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index 8e4032d..0f4efba 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -155,7 +155,7 @@ func (p *tMap) Get(key interface{}) (interface{}, bool) {
 		if v, ok := m[useKey.(bool)]; ok {
 			return v, true
 		}
-		return nil, true
+		return nil, false
 	case BYTE:
 		m := p.i08
 		if v, ok := m[useKey.(byte)]; ok {
-- 
2.43.0


From cd85884b3124cc0723a69783b0a0dfc0dc5f31e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:26 +0000
Subject: [PATCH 35/87] fix: maps stored values unconverted

---
 lib/go/src/thrift/tmap.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index 0f4efba..a9df090 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -354,43 +354,43 @@ func (p *tMap) Set(key, value interface{}) {
 			p.b = make(map[bool]interface{})
 		}
 		b := coercedKey.(bool)
-		p.b[b] = value
+		p.b[b] = coercedValue
 	case BYTE:
 		if p.i08 == nil {
 			p.i08 = make(map[byte]interface{})
 		}
 		b := coercedKey.(byte)
-		p.i08[b] = value
+		p.i08[b] = coercedValue
 	case DOUBLE:
 		if p.f64 == nil {
 			p.f64 = make(map[float64]interface{})
 		}
 		b := coercedKey.(float64)
-		p.f64[b] = value
+		p.f64[b] = coercedValue
 	case I16:
 		if p.i16 == nil {
 			p.i16 = make(map[int16]interface{})
 		}
 		b := coercedKey.(int16)
-		p.i16[b] = value
+		p.i16[b] = coercedValue
 	case I32:
 		if p.i32 == nil {
 			p.i32 = make(map[int32]interface{})
 		}
 		b := coercedKey.(int32)
-		p.i32[b] = value
+		p.i32[b] = coercedValue
 	case I64:
 		if p.i64 == nil {
 			p.i64 = make(map[int64]interface{})
 		}
 		b := coercedKey.(int64)
-		p.i64[b] = value
+		p.i64[b] = coercedValue
 	case STRING, UTF8, UTF16:
 		if p.s == nil {
 			p.s = make(map[string]interface{})
 		}
 		b := coercedKey.(string)
-		p.s[b] = value
+		p.s[b] = coercedValue
 	case BINARY, STRUCT, MAP, SET, LIST:
 		panic("Should never be here because type is " + p.KeyType().String())
 	default:
-- 
2.43.0


From 23ee4eb1a01f9e0c82e2ce229bd6bed79e7891f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:28 +0000
Subject: [PATCH 36/87] fix: iterating over a map whose keys are maps crashed
 the process

---
 lib/go/src/thrift/tmap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index a9df090..68d9c78 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -603,7 +603,7 @@ func (p *tMap) iterate(c chan<- TMapElem) {
 			c <- NewTMapElem(k, v)
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	case BINARY, STRUCT, MAP, LIST, SET:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem)
 		}
@@ -660,7 +660,7 @@ func (p *tMap) iterateKeys(c chan<- interface{}) {
 			c <- k
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	case BINARY, STRUCT, MAP, LIST, SET:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem).Key()
 		}
@@ -716,7 +716,7 @@ func (p *tMap) iterateValues(c chan<- interface{}) {
 			c <- v
 		}
 		close(c)
-	case BINARY, STRUCT, LIST, SET:
+	case BINARY, STRUCT, MAP, LIST, SET:
 		for v := p.l.Front(); v != nil; v = v.Next() {
 			c <- v.Value.(TMapElem).Value()
 		}
-- 
2.43.0


From 535cf4c6ef6e0465eaa7dac8d7b3a2fae45c4b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:09 +0000
Subject: [PATCH 37/87] fix: comparing maps depended on the random order of
 their keys

---
 lib/go/src/thrift/ttype.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 8dfb57c..709b1dd 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -22,6 +22,7 @@ package thrift
 import (
 	"bytes"
 	"container/list"
+	"sort"
 	"strconv"
 )
 
@@ -437,10 +438,20 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 		if size := mi.Len(); size != mj.Len() {
 			return CompareInt(size, mj.Len()), true
 		}
-		if c, cok := ki.CompareValueArrays(mi.Keys(), mj.Keys()); c != 0 || !cok {
+		// the order in which a map yields its keys means nothing
+		keysi := ki.sortedValues(mi.Keys())
+		keysj := ki.sortedValues(mj.Keys())
+		if c, cok := ki.CompareValueArrays(keysi, keysj); c != 0 || !cok {
 			return c, cok
 		}
-		return vi.CompareValueArrays(mi.Values(), mj.Values())
+		for k := range keysi {
+			a, _ := mi.Get(keysi[k])
+			b, _ := mj.Get(keysj[k])
+			if c, cok := vi.Compare(a, b); c != 0 || !cok {
+				return c, cok
+			}
+		}
+		return 0, true
 	case LIST:
 		li, iok := ci.(TList)
 		lj, jok := cj.(TList)
@@ -487,6 +498,11 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 	return 0, false
 }
 
+func (p TType) sortedValues(l []interface{}) []interface{} {
+	sort.SliceStable(l, func(i, j int) bool { return p.Less(l[i], l[j]) })
+	return l
+}
+
 func (p TType) CompareValueArrays(li, lj []interface{}) (int, bool) {
 	size := len(li)
 	if cmp := CompareInt(size, len(lj)); cmp != 0 {
-- 
2.43.0


From 308843e5b771164393dc9992f509458fe9138605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:11 +0000
Subject: [PATCH 38/87] fix: comparing values given as byte slices for a type
 other than binary panicked

---
 lib/go/src/thrift/ttype.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 709b1dd..0680c04 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -22,6 +22,7 @@ package thrift
 import (
 	"bytes"
 	"container/list"
+	"reflect"
 	"sort"
 	"strconv"
 )
@@ -259,7 +260,7 @@ func (p TType) Less(i, j interface{}) bool {
 }
 
 func (p TType) Compare(i, j interface{}) (int, bool) {
-	if p != BINARY {
+	if i != nil && j != nil && reflect.TypeOf(i).Comparable() {
 		if i == j {
 			return 0, true
 		}
-- 
2.43.0


From d15352a1fce700bc0ddd7c4da5fbf5ed5d2e3f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:13 +0000
Subject: [PATCH 39/87] fix: 64-bit integers could not be compared

---
 lib/go/src/thrift/tcompare.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompare.go b/lib/go/src/thrift/tcompare.go
index aa41eb3..80d6897 100644
--- a/lib/go/src/thrift/tcompare.go
+++ b/lib/go/src/thrift/tcompare.go
@@ -49,7 +49,7 @@ func CompareInt32(i, j int32) int {
 	return 0
 }
 
-func CompareInt64(i, j int32) int {
+func CompareInt64(i, j int64) int {
 	if i > j {
 		return 1
 	}
-- 
2.43.0


From e7bcb371adec730e83adbcba089338cfc8e98532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:15 +0000
Subject: [PATCH 40/87] fix: field collections kept the order given instead of
 id order

---
 lib/go/src/thrift/tfield.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tfield.go b/lib/go/src/thrift/tfield.go
index 72aaf50..1a62272 100644
--- a/lib/go/src/thrift/tfield.go
+++ b/lib/go/src/thrift/tfield.go
@@ -152,7 +152,7 @@ func NewTFieldContainer(fields []TField) TFieldContainer {
 	}
 	sort.Sort(tFieldArray(sortedFields))
 	return &tFieldContainer{
-		fields:         fields,
+		fields:         sortedFields,
 		nameToFieldMap: nameToFieldMap,
 		idToFieldMap:   idToFieldMap,
 	}
-- 
2.43.0


From e008f5504735518fa31f79c62a36e91ea1110b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 41/87] fix: comparing field collections with different ids was
 not antisymmetric

---
 lib/go/src/thrift/tfield.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tfield.go b/lib/go/src/thrift/tfield.go
index 1a62272..e559e34 100644
--- a/lib/go/src/thrift/tfield.go
+++ b/lib/go/src/thrift/tfield.go
@@ -253,8 +253,13 @@ func (p *tFieldContainer) CompareTo(other interface{}) (int, bool) {
 		if cmp := CompareInt(p.Len(), data.Len()); cmp != 0 {
 			return cmp, true
 		}
-		for _, field := range p.fields {
-			if cmp, ok3 := field.CompareTo(data.At(field.Id())); !ok3 || cmp != 0 {
+		others := make([]TField, 0, p.Len())
+		for field := range data.Iter() {
+			others = append(others, field)
+		}
+		sort.Stable(tFieldArray(others))
+		for i, field := range p.fields {
+			if cmp, ok3 := field.CompareTo(others[i]); !ok3 || cmp != 0 {
 				return cmp, ok3
 			}
 		}
-- 
2.43.0


From 4eae7114842308fb3f729d966694fea0a7163113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:29 +0000
Subject: [PATCH 42/87] fix: generated structs with different field values
 compared as equal

---
 lib/go/src/thrift/ttype.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 0680c04..44dcd6d 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -414,9 +414,12 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 		if cmp, ok := si.TStructFields().CompareTo(sj.TStructFields()); !ok || cmp != 0 {
 			return cmp, ok
 		}
+		fields := make([]TField, 0, si.TStructFields().Len())
 		for field := range si.TStructFields().Iter() {
-			a := si.AttributeFromFieldId(field.Id())
-			b := sj.AttributeFromFieldId(field.Id())
+			fields = append(fields, field)
+		}
+		for _, field := range fields {
+			a, b := structAttributes(si, sj, field.Id())
 			if cmp, ok := field.TypeId().Compare(a, b); !ok || cmp != 0 {
 				return cmp, ok
 			}
@@ -499,6 +502,20 @@ func (p TType) Compare(i, j interface{}) (int, bool) {
 	return 0, false
 }
 
+// The values of a field in two structs. Generated structs give them through
+// AttributeByFieldId, they only inherit AttributeFromFieldId.
+func structAttributes(si, sj TStruct, fieldId int) (interface{}, interface{}) {
+	type generated interface {
+		AttributeByFieldId(id int) interface{}
+	}
+	gi, iok := si.(generated)
+	gj, jok := sj.(generated)
+	if iok && jok {
+		return gi.AttributeByFieldId(fieldId), gj.AttributeByFieldId(fieldId)
+	}
+	return si.AttributeFromFieldId(fieldId), sj.AttributeFromFieldId(fieldId)
+}
+
 func (p TType) sortedValues(l []interface{}) []interface{} {
 	sort.SliceStable(l, func(i, j int) bool { return p.Less(l[i], l[j]) })
 	return l
-- 
2.43.0


From 63f827858fb6c7e2e8ef2f2e3c300653b2495498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:09 +0000
Subject: [PATCH 43/87] fix: text was not converted to numbers unless it was
 not a number

---
 lib/go/src/thrift/ttype.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 44dcd6d..146ba5b 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -733,7 +733,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.Atoi(b)
-			if err != nil {
+			if err == nil {
 				return byte(int(i1)), true
 			}
 		}
@@ -798,7 +798,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			d1, err := strconv.ParseFloat(b, 64)
-			if err != nil {
+			if err == nil {
 				return d1, true
 			}
 		}
@@ -857,7 +857,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.Atoi(b)
-			if err != nil {
+			if err == nil {
 				return int16(i1), true
 			}
 		}
@@ -916,7 +916,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.Atoi(b)
-			if err != nil {
+			if err == nil {
 				return int32(i1), true
 			}
 		}
@@ -975,7 +975,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(string); ok {
 			i1, err := strconv.ParseInt(b, 10, 64)
-			if err != nil {
+			if err == nil {
 				return i1, true
 			}
 		}
-- 
2.43.0


From 638c024212700a8da46c8747c233a7cde676a967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:11 +0000
Subject: [PATCH 44/87] fix: converting a Numeric to a number gave a bool or
 lost its fraction

---
 lib/go/src/thrift/ttype.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index 146ba5b..bb25d68 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -634,7 +634,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		case bool:
 			return b, true
 		case Numeric:
-			return bool(b.Int() != 0), true
+			return b.Float64() != 0, true
 		case int:
 			return b != 0, true
 		case byte:
@@ -746,7 +746,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return b, true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Float64() != 0.0), true
+			return b.Float64(), true
 		}
 		if b, ok := data.(byte); ok {
 			return float64(b), true
@@ -811,7 +811,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return int16(b), true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Int16() != 0), true
+			return b.Int16(), true
 		}
 		if b, ok := data.(byte); ok {
 			return int16(b), true
@@ -870,7 +870,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return int32(b), true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Int32() != 0), true
+			return b.Int32(), true
 		}
 		if b, ok := data.(byte); ok {
 			return int32(b), true
@@ -932,7 +932,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return int64(b), true
 		}
 		if b, ok := data.(Numeric); ok {
-			return bool(b.Int64() != 0), true
+			return b.Int64(), true
 		}
 		if b, ok := data.(byte); ok {
 			return int64(b), true
-- 
2.43.0


From 7d178ce84fc7dc068e1b96edfa6d3afe88f35aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:13 +0000
Subject: [PATCH 45/87] fix: integers were converted to text as a single
 character

---
 lib/go/src/thrift/ttype.go | 48 +++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index bb25d68..d9a3456 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -986,7 +986,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(Enumer); ok {
 			if i1, ok := data.(int); ok {
-				return string(i1), true
+				return strconv.Itoa(i1), true
 			}
 			return b.String(), true
 		}
@@ -997,10 +997,10 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return b, true
 		}
 		if b, ok := data.(int); ok {
-			return string(b), true
+			return strconv.Itoa(b), true
 		}
 		if b, ok := data.(byte); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(bool); ok {
 			if b {
@@ -1009,31 +1009,31 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return "false", true
 		}
 		if b, ok := data.(int8); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(int16); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(int32); ok {
-			return string(b), true
+			return strconv.FormatInt(int64(b), 10), true
 		}
 		if b, ok := data.(int64); ok {
-			return string(b), true
+			return strconv.FormatInt(b, 10), true
 		}
 		if b, ok := data.(uint); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint8); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint16); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint32); ok {
-			return string(b), true
+			return strconv.FormatUint(uint64(b), 10), true
 		}
 		if b, ok := data.(uint64); ok {
-			return string(b), true
+			return strconv.FormatUint(b, 10), true
 		}
 		if b, ok := data.(float32); ok {
 			return strconv.FormatFloat(float64(b), 'g', -1, 32), true
@@ -1048,7 +1048,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		}
 		if b, ok := data.(Enumer); ok {
 			if i1, ok := data.(int); ok {
-				return []byte(string(i1)), true
+				return []byte(strconv.Itoa(i1)), true
 			}
 			return []byte(b.String()), true
 		}
@@ -1059,10 +1059,10 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return []byte(b), true
 		}
 		if b, ok := data.(int); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.Itoa(b)), true
 		}
 		if b, ok := data.(byte); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(bool); ok {
 			if b {
@@ -1071,31 +1071,31 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return []byte("false"), true
 		}
 		if b, ok := data.(int8); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(int16); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(int32); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(int64(b), 10)), true
 		}
 		if b, ok := data.(int64); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatInt(b, 10)), true
 		}
 		if b, ok := data.(uint); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint8); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint16); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint32); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(uint64(b), 10)), true
 		}
 		if b, ok := data.(uint64); ok {
-			return []byte(string(b)), true
+			return []byte(strconv.FormatUint(b, 10)), true
 		}
 		if b, ok := data.(float32); ok {
 			return []byte(strconv.FormatFloat(float64(b), 'g', -1, 32)), true
-- 
2.43.0


From a0ef190e52f7f4466675c925cac670453d9b2a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:15 +0000
Subject: [PATCH 46/87] fix: anything was accepted as a struct

---
 lib/go/src/thrift/ttype.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index d9a3456..c6a47ac 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -1108,7 +1108,7 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		if b, ok := data.(TStruct); ok {
 			return b, true
 		}
-		return NewTStructEmpty(""), true
+		return NewTStructEmpty(""), false
 	case MAP:
 		if b, ok := data.(TMap); ok {
 			return b, true
-- 
2.43.0


From bccbc00623241ca22c922f4e4f829e40acbd3d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:36 +0000
Subject: [PATCH 47/87] fix: enum values were not converted to numbers

---
 lib/go/src/thrift/ttype.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index c6a47ac..e025fc8 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -728,6 +728,9 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			}
 			return byte(0), true
 		}
+		if b, ok := data.(Enumer); ok {
+			return byte(b.Value()), true
+		}
 		if b, ok := data.(Stringer); ok {
 			data = b.String()
 		}
@@ -793,6 +796,9 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			}
 			return float64(0), true
 		}
+		if b, ok := data.(Enumer); ok {
+			return float64(b.Value()), true
+		}
 		if b, ok := data.(Stringer); ok {
 			data = b.String()
 		}
@@ -852,6 +858,9 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		if b, ok := data.(float64); ok {
 			return int16(int(b)), true
 		}
+		if b, ok := data.(Enumer); ok {
+			return int16(b.Value()), true
+		}
 		if b, ok := data.(Stringer); ok {
 			data = b.String()
 		}
@@ -911,6 +920,9 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		if b, ok := data.(float64); ok {
 			return int32(int(b)), true
 		}
+		if b, ok := data.(Enumer); ok {
+			return int32(b.Value()), true
+		}
 		if b, ok := data.(Stringer); ok {
 			data = b.String()
 		}
@@ -970,6 +982,9 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 		if b, ok := data.(float64); ok {
 			return int64(b), true
 		}
+		if b, ok := data.(Enumer); ok {
+			return int64(b.Value()), true
+		}
 		if b, ok := data.(Stringer); ok {
 			data = b.String()
 		}
-- 
2.43.0


From 03456b9127bda041b0b1af765a1a0a4c97fac70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:04 +0000
Subject: [PATCH 48/87] fix: numbers made from integers had a single character
 as their text

---
 lib/go/src/thrift/tnumeric.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tnumeric.go b/lib/go/src/thrift/tnumeric.go
index aa8daa9..e4512d2 100644
--- a/lib/go/src/thrift/tnumeric.go
+++ b/lib/go/src/thrift/tnumeric.go
@@ -69,14 +69,14 @@ func NewNumericFromDouble(dValue float64) Numeric {
 
 func NewNumericFromI64(iValue int64) Numeric {
 	dValue := float64(iValue)
-	sValue := string(iValue)
+	sValue := strconv.FormatInt(iValue, 10)
 	isNil := false
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNil}
 }
 
 func NewNumericFromI32(iValue int32) Numeric {
 	dValue := float64(iValue)
-	sValue := string(iValue)
+	sValue := strconv.FormatInt(int64(iValue), 10)
 	isNil := false
 	return &numeric{iValue: int64(iValue), dValue: dValue, sValue: sValue, isNil: isNil}
 }
-- 
2.43.0


From 7e9920e642817273e824603cd7132404c13d6d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:06 +0000
Subject: [PATCH 49/87] fix: the text of a number made from a double lost
 precision

---
 lib/go/src/thrift/tnumeric.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tnumeric.go b/lib/go/src/thrift/tnumeric.go
index e4512d2..5a2797c 100644
--- a/lib/go/src/thrift/tnumeric.go
+++ b/lib/go/src/thrift/tnumeric.go
@@ -62,7 +62,7 @@ func NewNumericFromDouble(dValue float64) Numeric {
 		return NAN
 	}
 	iValue := int64(dValue)
-	sValue := strconv.FormatFloat(dValue, 'g', 10, 64)
+	sValue := strconv.FormatFloat(dValue, 'g', -1, 64)
 	isNil := false
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNil}
 }
-- 
2.43.0


From 0a637a89a0c20b672ec667a66754aec18836ff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:32 +0000
Subject: [PATCH 50/87] fix: the integer value of a number given with fraction
 or exponent was 0

---
 lib/go/src/thrift/tnumeric.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/tnumeric.go b/lib/go/src/thrift/tnumeric.go
index 5a2797c..03d8b49 100644
--- a/lib/go/src/thrift/tnumeric.go
+++ b/lib/go/src/thrift/tnumeric.go
@@ -91,8 +91,7 @@ func NewNumericFromString(sValue string) Numeric {
 	if sValue == NAN.String() {
 		return NAN
 	}
-	iValue, _ := strconv.ParseInt(sValue, 10, 64)
-	dValue, _ := strconv.ParseFloat(sValue, 64)
+	iValue, dValue := parseNumber(sValue)
 	isNil := len(sValue) == 0
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNil}
 }
@@ -110,11 +109,19 @@ func NewNumericFromJSONString(sValue string, isNull bool) Numeric {
 	if sValue == JSON_NAN {
 		return NAN
 	}
-	iValue, _ := strconv.ParseInt(sValue, 10, 64)
-	dValue, _ := strconv.ParseFloat(sValue, 64)
+	iValue, dValue := parseNumber(sValue)
 	return &numeric{iValue: iValue, dValue: dValue, sValue: sValue, isNil: isNull}
 }
 
+func parseNumber(sValue string) (int64, float64) {
+	dValue, _ := strconv.ParseFloat(sValue, 64)
+	iValue, err := strconv.ParseInt(sValue, 10, 64)
+	if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrSyntax {
+		iValue = int64(dValue)
+	}
+	return iValue, dValue
+}
+
 func NewNullNumeric() Numeric {
 	return &numeric{iValue: 0, dValue: 0.0, sValue: "", isNil: true}
 }
-- 
2.43.0


From 80fa8447b8b0218f985d1656ce40d720e58462a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:12 +0000
Subject: [PATCH 51/87] fix: numbers in messages were turned into a single
 character

---
 lib/go/src/thrift/tbinary_protocol.go    | 3 ++-
 lib/go/src/thrift/tcompact_protocol.go   | 3 ++-
 lib/go/src/thrift/tfield.go              | 3 ++-
 lib/go/src/thrift/tmessage.go            | 6 +++++-
 lib/go/src/thrift/tprotocol_exception.go | 5 +++--
 5 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/go/src/thrift/tbinary_protocol.go b/lib/go/src/thrift/tbinary_protocol.go
index d855a11..111075d 100644
--- a/lib/go/src/thrift/tbinary_protocol.go
+++ b/lib/go/src/thrift/tbinary_protocol.go
@@ -23,6 +23,7 @@ import (
 	"encoding/binary"
 	"io"
 	"math"
+	"strconv"
 	"strings"
 )
 
@@ -473,7 +474,7 @@ func (p *TBinaryProtocol) checkReadLength(length int) TProtocolException {
 	if p._CheckReadLength {
 		p._ReadLength = p._ReadLength - length
 		if p._ReadLength < 0 {
-			return NewTProtocolException(UNKNOWN_PROTOCOL_EXCEPTION, "Message length exceeded: "+string(length))
+			return NewTProtocolException(UNKNOWN_PROTOCOL_EXCEPTION, "Message length exceeded: "+strconv.Itoa(int(length)))
 		}
 	}
 	return nil
diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 14f5e97..577af13 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -23,6 +23,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"math"
+	"strconv"
 	"strings"
 )
 
@@ -859,7 +860,7 @@ func (p *TCompactProtocol) getTType(t TCompactType) (TType, error) {
 	case COMPACT_STRUCT:
 		return STRUCT, nil
 	}
-	return STOP, NewTException("don't know what type: " + string(t&0x0f))
+	return STOP, NewTException("don't know what type: " + strconv.Itoa(int(t&0x0f)))
 }
 
 /**
diff --git a/lib/go/src/thrift/tfield.go b/lib/go/src/thrift/tfield.go
index e559e34..2967030 100644
--- a/lib/go/src/thrift/tfield.go
+++ b/lib/go/src/thrift/tfield.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"sort"
+	"strconv"
 )
 
 /**
@@ -75,7 +76,7 @@ func (p *tField) String() string {
 	if p == nil {
 		return "<nil>"
 	}
-	return "<TField name:'" + p.name + "' type:" + string(p.typeId) + " field-id:" + string(p.id) + ">"
+	return "<TField name:'" + p.name + "' type:" + p.typeId.String() + " field-id:" + strconv.Itoa(p.id) + ">"
 }
 
 func (p *tField) CompareTo(other interface{}) (int, bool) {
diff --git a/lib/go/src/thrift/tmessage.go b/lib/go/src/thrift/tmessage.go
index caca516..749fba0 100644
--- a/lib/go/src/thrift/tmessage.go
+++ b/lib/go/src/thrift/tmessage.go
@@ -19,6 +19,10 @@
 
 package thrift
 
+import (
+	"strconv"
+)
+
 /**
  * Helper class that encapsulates struct metadata.
  *
@@ -56,7 +60,7 @@ func (p *tMessage) SeqId() int {
 }
 
 func (p *tMessage) String() string {
-	return "<TMessage name:'" + p.name + "' type: " + string(p.typeId) + " seqid:" + string(p.seqid) + ">"
+	return "<TMessage name:'" + p.name + "' type: " + strconv.Itoa(int(p.typeId)) + " seqid:" + strconv.Itoa(int(p.seqid)) + ">"
 }
 
 func (p *tMessage) Equals(other TMessage) bool {
diff --git a/lib/go/src/thrift/tprotocol_exception.go b/lib/go/src/thrift/tprotocol_exception.go
index d023fb7..6c46385 100644
--- a/lib/go/src/thrift/tprotocol_exception.go
+++ b/lib/go/src/thrift/tprotocol_exception.go
@@ -21,6 +21,7 @@ package thrift
 
 import (
 	"encoding/base64"
+	"strconv"
 )
 
 /**
@@ -79,7 +80,7 @@ func NewTProtocolExceptionReadField(fieldId int, fieldName string, structName st
 	if t == UNKNOWN_PROTOCOL_EXCEPTION {
 		t = INVALID_DATA
 	}
-	return NewTProtocolException(t, "Unable to read field "+string(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
+	return NewTProtocolException(t, "Unable to read field "+strconv.Itoa(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
 }
 
 func NewTProtocolExceptionWriteField(fieldId int, fieldName string, structName string, e TProtocolException) TProtocolException {
@@ -87,7 +88,7 @@ func NewTProtocolExceptionWriteField(fieldId int, fieldName string, structName s
 	if t == UNKNOWN_PROTOCOL_EXCEPTION {
 		t = INVALID_DATA
 	}
-	return NewTProtocolException(t, "Unable to write field "+string(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
+	return NewTProtocolException(t, "Unable to write field "+strconv.Itoa(fieldId)+" ("+fieldName+") in "+structName+" due to: "+e.Error())
 }
 
 func NewTProtocolExceptionReadStruct(structName string, e TProtocolException) TProtocolException {
-- 
2.43.0


From b735ec02c29ae42f46e9b93bd16fa5929ff12b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:17 +0000
Subject: [PATCH 52/87] fix: containers took structs with different field
 values for the same

---
 lib/go/src/thrift/tlist.go | 9 +++++++++
 lib/go/src/thrift/tmap.go  | 4 ++--
 lib/go/src/thrift/tset.go  | 9 +++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index d56c06b..23ba206 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -174,6 +174,15 @@ func (p *tList) indexOf(data interface{}) int {
 		}
 		return -1
 	}
+	if p.elemType == STRUCT {
+		// generated structs only inherit Equals, it does not see their values
+		for i := 0; i < size; i++ {
+			if cmp, ok := p.elemType.Compare(data, p.l[i]); ok && cmp == 0 {
+				return i
+			}
+		}
+		return -1
+	}
 	if cmp, ok := data.(EqualsOtherInterface); ok {
 		for i := 0; i < size; i++ {
 			if cmp.Equals(p.l[i]) {
diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index 68d9c78..f8e37ed 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -236,7 +236,7 @@ func (p *tMap) Get(key interface{}) (interface{}, bool) {
 			}
 			structkey, ok := k.(TStruct)
 			if ok {
-				if structkey.Equals(useKey.(TStruct)) {
+				if cmp, ok := p.KeyType().Compare(structkey, useKey); ok && cmp == 0 {
 					return e.Value(), true
 				}
 				continue
@@ -499,7 +499,7 @@ func (p *tMap) Contains(key interface{}) bool {
 			}
 			structkey, ok := k.(TStruct)
 			if ok {
-				if structkey.Equals(coercedKey.(TStruct)) {
+				if cmp, ok := p.KeyType().Compare(structkey, coercedKey); ok && cmp == 0 {
 					return true
 				}
 				continue
diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index bea207c..3b4d4c3 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -144,6 +144,15 @@ func (p *tSet) find(data interface{}) *list.Element {
 		}
 		return nil
 	}
+	if p.elemType == STRUCT {
+		// generated structs only inherit Equals, it does not see their values
+		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
+			if cmp, ok := p.elemType.Compare(data, elem.Value); ok && cmp == 0 {
+				return elem
+			}
+		}
+		return nil
+	}
 	if cmp, ok := data.(EqualsOtherInterface); ok {
 		for elem := p.l.Front(); elem != nil; elem = elem.Next() {
 			if cmp.Equals(elem.Value) {
-- 
2.43.0


From 7ecb50cd1218b9e016df63a08798407c3b994077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:46 +0000
Subject: [PATCH 53/87] fix: writing an application exception hid a failure to
 begin the struct

---
 lib/go/src/thrift/tapplication_exception.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tapplication_exception.go b/lib/go/src/thrift/tapplication_exception.go
index 21d38cd..42e00e4 100644
--- a/lib/go/src/thrift/tapplication_exception.go
+++ b/lib/go/src/thrift/tapplication_exception.go
@@ -139,6 +139,9 @@ func (p *tApplicationException) Read(iprot TProtocol) (error TApplicationExcepti
 
 func (p *tApplicationException) Write(oprot TProtocol) (err error) {
 	err = oprot.WriteStructBegin("TApplicationException")
+	if err != nil {
+		return
+	}
 	if len(p.Error()) > 0 {
 		err = oprot.WriteFieldBegin("message", STRING, 1)
 		if err != nil {
-- 
2.43.0


From bd160adc176a8215755653397460a278f70864e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:28 +0000
Subject: [PATCH 54/87] fix: make TServerSocket safe to close and interrupt
 while it accepts

Interrupt and Close run in another goroutine than Accept. Accept crashed on
a listener that went away between its test and its use, and when it was
called just after Interrupt it silently listened again, so that a server
that had been stopped went on serving and kept its address.
---
 lib/go/src/thrift/tserver_socket.go | 67 ++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 16 deletions(-)

diff --git a/lib/go/src/thrift/tserver_socket.go b/lib/go/src/thrift/tserver_socket.go
index b750284..69043b6 100644
--- a/lib/go/src/thrift/tserver_socket.go
+++ b/lib/go/src/thrift/tserver_socket.go
@@ -21,9 +21,15 @@ package thrift
 
 import (
 	"net"
+	"sync"
 )
 
 type TServerSocket struct {
+	/**
+	 * Guards conn, listener and closed, as Interrupt may be called at any time
+	 */
+	mutex sync.Mutex
+
 	/**
 	 * Underlying socket conection object
 	 */
@@ -42,6 +48,11 @@ type TServerSocket struct {
 	 * Client timeout in nanoseconds
 	 */
 	nsecClientTimeout int64
+
+	/**
+	 * Set by Close until the next Listen or Open: Accept must not listen again
+	 */
+	closed bool
 }
 
 type TServerSocketTransportFactory struct {
@@ -83,25 +94,47 @@ func NewTServerSocketAddrTimeout(addr net.Addr, nsecClientTimeout int64) (*TServ
 	return s, nil
 }
 
-func (p *TServerSocket) Listen() (err error) {
+func (p *TServerSocket) Listen() error {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	return p.listen("tcp")
+}
+
+func (p *TServerSocket) listen(network string) error {
 	if p.listener == nil {
-		if p.listener, err = net.Listen("tcp", p.addr.String()); err != nil {
+		l, err := net.Listen(network, p.addr.String())
+		if err != nil {
 			return err
 		}
+		p.listener = l
 	}
+	p.closed = false
 	return nil
 }
 
-func (p *TServerSocket) Accept() (TTransport, error) {
+/**
+ * The listener to accept from, created if Listen was never called.
+ */
+func (p *TServerSocket) acceptListener() (net.Listener, error) {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	if p.listener == nil {
-		if err := p.Listen(); err != nil {
-			return nil, NewTTransportExceptionFromOsError(err)
-		}
-		if p.listener == nil {
+		if p.closed {
 			return nil, NewTTransportException(NOT_OPEN, "No underlying server socket")
 		}
+		if err := p.listen("tcp"); err != nil {
+			return nil, NewTTransportExceptionFromOsError(err)
+		}
 	}
-	conn, err := p.listener.Accept()
+	return p.listener, nil
+}
+
+func (p *TServerSocket) Accept() (TTransport, error) {
+	listener, err := p.acceptListener()
+	if err != nil {
+		return nil, err
+	}
+	conn, err := listener.Accept()
 	if err != nil {
 		return nil, NewTTransportExceptionFromOsError(err)
 	}
@@ -112,6 +145,8 @@ func (p *TServerSocket) Accept() (TTransport, error) {
  * Checks whether the socket is connected.
  */
 func (p *TServerSocket) IsOpen() bool {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	return p.listener != nil
 }
 
@@ -119,13 +154,10 @@ func (p *TServerSocket) IsOpen() bool {
  * Connects the socket, creating a new socket object if necessary.
  */
 func (p *TServerSocket) Open() error {
-	if !p.IsOpen() {
-		l, err := net.Listen(p.addr.Network(), p.addr.String())
-		if err != nil {
-			return err
-		}
-		p.listener = l
-		return nil
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.listener == nil {
+		return p.listen(p.addr.Network())
 	}
 	return NewTTransportException(ALREADY_OPEN, "Server socket already open")
 }
@@ -167,7 +199,10 @@ func (p *TServerSocket) Peek() bool {
  * Closes the socket.
  */
 func (p *TServerSocket) Close() (err error) {
-	if p.IsOpen() {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	p.closed = true
+	if p.listener != nil {
 		err := p.listener.Close()
 		if err != nil {
 			return NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From a3b5884eff9d1f1947ed594ab292828617fcd2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:52 +0000
Subject: [PATCH 55/87] fix: make TNonblockingServerSocket safe to close and
 interrupt while it accepts

Interrupt and Close run in another goroutine than Accept, which crashed on a
listener that went away between its test and its use.
---
 .../src/thrift/tnonblocking_server_socket.go  | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_server_socket.go b/lib/go/src/thrift/tnonblocking_server_socket.go
index e38535d..e32bc1e 100644
--- a/lib/go/src/thrift/tnonblocking_server_socket.go
+++ b/lib/go/src/thrift/tnonblocking_server_socket.go
@@ -21,12 +21,17 @@ package thrift
 
 import (
 	"net"
+	"sync"
 )
 
 /**
  * Socket implementation of the TTransport interface. To be commented soon!
  */
 type TNonblockingServerSocket struct {
+	/**
+	 * Guards listener, as Interrupt may be called at any time
+	 */
+	mutex    sync.Mutex
 	listener net.Listener
 	addr     net.Addr
 	/**
@@ -88,6 +93,8 @@ func (p *TNonblockingServerSocket) SetTimeout(nsecTimeout int64) error {
  * Checks whether the socket is connected.
  */
 func (p *TNonblockingServerSocket) IsOpen() bool {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	return p.listener != nil
 }
 
@@ -95,7 +102,9 @@ func (p *TNonblockingServerSocket) IsOpen() bool {
  * Connects the socket, creating a new socket object if necessary.
  */
 func (p *TNonblockingServerSocket) Open() error {
-	if !p.IsOpen() {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.listener == nil {
 		l, err := net.Listen(p.addr.Network(), p.addr.String())
 		if err != nil {
 			return err
@@ -136,10 +145,13 @@ func (p *TNonblockingServerSocket) Addr() net.Addr {
 }
 
 func (p *TNonblockingServerSocket) Accept() (TTransport, error) {
-	if !p.IsOpen() {
+	p.mutex.Lock()
+	listener := p.listener
+	p.mutex.Unlock()
+	if listener == nil {
 		return nil, NewTTransportException(NOT_OPEN, "No underlying server socket")
 	}
-	conn, err := p.listener.Accept()
+	conn, err := listener.Accept()
 	if err != nil {
 		return nil, NewTTransportExceptionFromOsError(err)
 	}
@@ -154,7 +166,9 @@ func (p *TNonblockingServerSocket) Peek() bool {
  * Closes the socket.
  */
 func (p *TNonblockingServerSocket) Close() (err error) {
-	if p.IsOpen() {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.listener != nil {
 		err := p.listener.Close()
 		if err != nil {
 			return NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From 198a40b1e2b698f8b9774892092d4d376c30d182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:54 +0000
Subject: [PATCH 56/87] fix: let TNonblockingServerSocket.Listen succeed on an
 open socket

A server over a socket made by NewTNonblockingServerSocketListener, which is
open from the start, never served: Listen said the socket was already open.
---
 .../src/thrift/tnonblocking_server_socket.go  | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_server_socket.go b/lib/go/src/thrift/tnonblocking_server_socket.go
index e32bc1e..52c3941 100644
--- a/lib/go/src/thrift/tnonblocking_server_socket.go
+++ b/lib/go/src/thrift/tnonblocking_server_socket.go
@@ -76,7 +76,21 @@ func NewTNonblockingServerSocketAddrTimeout(addr net.Addr, nsecTimeout int64) (*
 }
 
 func (p *TNonblockingServerSocket) Listen() error {
-	return p.Open()
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.listener != nil {
+		return nil
+	}
+	return p.listen()
+}
+
+func (p *TNonblockingServerSocket) listen() error {
+	l, err := net.Listen(p.addr.Network(), p.addr.String())
+	if err != nil {
+		return err
+	}
+	p.listener = l
+	return nil
 }
 
 /**
@@ -105,12 +119,7 @@ func (p *TNonblockingServerSocket) Open() error {
 	p.mutex.Lock()
 	defer p.mutex.Unlock()
 	if p.listener == nil {
-		l, err := net.Listen(p.addr.Network(), p.addr.String())
-		if err != nil {
-			return err
-		}
-		p.listener = l
-		return nil
+		return p.listen()
 	}
 	return NewTTransportException(ALREADY_OPEN, "Server socket already open")
 }
-- 
2.43.0


From 80f90d2640a22fa6aed4cac220d11bbb86c59081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:57 +0000
Subject: [PATCH 57/87] fix: end a connection that fails after the server was
 stopped

Once the server was stopped, the error of a processor that answers (true, err)
was ignored and the broken connection processed again without end.
---
 lib/go/src/thrift/tnonblocking_server.go | 6 ++----
 lib/go/src/thrift/tsimple_server.go      | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_server.go b/lib/go/src/thrift/tnonblocking_server.go
index 399cfe4..aaa8033 100644
--- a/lib/go/src/thrift/tnonblocking_server.go
+++ b/lib/go/src/thrift/tnonblocking_server.go
@@ -163,10 +163,8 @@ func (p *TNonblockingServer) processRequest(client TTransport) {
 	for {
 		ok, e := processor.Process(inputProtocol, outputProtocol)
 		if e != nil {
-			if !p.stopped {
-				// TODO(pomack) log error
-				break
-			}
+			// TODO(pomack) log error unless stopped
+			break
 		}
 		if !ok {
 			break
diff --git a/lib/go/src/thrift/tsimple_server.go b/lib/go/src/thrift/tsimple_server.go
index 70a9916..a41ce8c 100644
--- a/lib/go/src/thrift/tsimple_server.go
+++ b/lib/go/src/thrift/tsimple_server.go
@@ -149,10 +149,8 @@ func (p *TSimpleServer) processRequest(client TTransport) {
 	for {
 		ok, e := processor.Process(inputProtocol, outputProtocol)
 		if e != nil {
-			if !p.stopped {
-				// TODO(pomack) log error
-				break
-			}
+			// TODO(pomack) log error unless stopped
+			break
 		}
 		if !ok {
 			break
-- 
2.43.0


From 57c4eb80d0555b2205c057578ee6871ebe029e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:59 +0000
Subject: [PATCH 58/87] fix: do not race on the servers' stopped flag

Stop is called while Serve runs in another goroutine.
---
 lib/go/src/thrift/tnonblocking_server.go | 14 ++++++++------
 lib/go/src/thrift/tsimple_server.go      | 12 ++++++++----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_server.go b/lib/go/src/thrift/tnonblocking_server.go
index aaa8033..124fe82 100644
--- a/lib/go/src/thrift/tnonblocking_server.go
+++ b/lib/go/src/thrift/tnonblocking_server.go
@@ -19,7 +19,9 @@
 
 package thrift
 
-import ()
+import (
+	"sync/atomic"
+)
 
 /**
  * A nonblocking TServer implementation. This allows for fairness amongst all
@@ -34,7 +36,7 @@ import ()
  */
 type TNonblockingServer struct {
 	/** Flag for stopping the server */
-	stopped bool
+	stopped int32 // accessed atomically
 
 	processorFactory       TProcessorFactory
 	serverTransport        TServerTransport
@@ -121,12 +123,12 @@ func (p *TNonblockingServer) OutputProtocolFactory() TProtocolFactory {
 }
 
 func (p *TNonblockingServer) Serve() error {
-	p.stopped = false
+	atomic.StoreInt32(&p.stopped, 0)
 	err := p.serverTransport.Listen()
 	if err != nil {
 		return err
 	}
-	for !p.stopped {
+	for atomic.LoadInt32(&p.stopped) == 0 {
 		client, err := p.serverTransport.Accept()
 		if err != nil {
 			return err
@@ -139,13 +141,13 @@ func (p *TNonblockingServer) Serve() error {
 }
 
 func (p *TNonblockingServer) Stop() error {
-	p.stopped = true
+	atomic.StoreInt32(&p.stopped, 1)
 	p.serverTransport.Interrupt()
 	return nil
 }
 
 func (p *TNonblockingServer) IsStopped() bool {
-	return p.stopped
+	return atomic.LoadInt32(&p.stopped) != 0
 }
 
 func (p *TNonblockingServer) processRequest(client TTransport) {
diff --git a/lib/go/src/thrift/tsimple_server.go b/lib/go/src/thrift/tsimple_server.go
index a41ce8c..ee7a4d7 100644
--- a/lib/go/src/thrift/tsimple_server.go
+++ b/lib/go/src/thrift/tsimple_server.go
@@ -19,12 +19,16 @@
 
 package thrift
 
+import (
+	"sync/atomic"
+)
+
 /**
  * Simple singlethreaded server for testing.
  *
  */
 type TSimpleServer struct {
-	stopped bool
+	stopped int32 // accessed atomically
 
 	processorFactory       TProcessorFactory
 	serverTransport        TServerTransport
@@ -111,12 +115,12 @@ func (p *TSimpleServer) OutputProtocolFactory() TProtocolFactory {
 }
 
 func (p *TSimpleServer) Serve() error {
-	p.stopped = false
+	atomic.StoreInt32(&p.stopped, 0)
 	err := p.serverTransport.Listen()
 	if err != nil {
 		return err
 	}
-	for !p.stopped {
+	for atomic.LoadInt32(&p.stopped) == 0 {
 		client, err := p.serverTransport.Accept()
 		if err != nil {
 			return err
@@ -129,7 +133,7 @@ func (p *TSimpleServer) Serve() error {
 }
 
 func (p *TSimpleServer) Stop() error {
-	p.stopped = true
+	atomic.StoreInt32(&p.stopped, 1)
 	p.serverTransport.Interrupt()
 	return nil
 }
-- 
2.43.0


From 5b1c3309f51ccea7a562f181b9c1553bd75ad17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:24 +0000
Subject: [PATCH 59/87] fix: generated files without structs did not compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 23 +++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index eafbb71..05045e3 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -203,6 +203,7 @@ public:
     std::string go_autogen_comment();
     std::string go_package();
     std::string go_imports();
+    std::string go_unused_imports(bool has_structs);
     std::string render_includes();
     std::string render_fastbinary_includes();
     std::string declare_argument(t_field* tfield);
@@ -476,7 +477,8 @@ void t_go_generator::init_generator()
              go_package() <<
              go_imports() <<
              render_includes() <<
-             render_fastbinary_includes() << endl << endl;
+             render_fastbinary_includes() <<
+             go_unused_imports(!program_->get_structs().empty() || !program_->get_xceptions().empty()) << endl << endl;
 }
 
 /**
@@ -549,6 +551,22 @@ string t_go_generator::go_imports()
                "}\n\n");
 }
 
+/**
+ * Uses the imports in a file whose definitions may not: only those of structs
+ * are sure to.
+ */
+string t_go_generator::go_unused_imports(bool has_structs)
+{
+    if (has_structs) {
+        return "";
+    }
+
+    return
+        string("// This file defines no structs, so it may not use its imports.\n"
+               "var _ = fmt.Sprintf\n"
+               "var _ thrift.TProtocol\n\n");
+}
+
 /**
  * Closes the type files
  */
@@ -1417,7 +1435,8 @@ void t_go_generator::generate_service(t_service* tservice)
                //             "import (" << endl <<
                // indent() << "        \"os\"" << endl <<
                // indent() << ")" << endl << endl <<
-               render_fastbinary_includes();
+               render_fastbinary_includes() <<
+               go_unused_imports(!tservice->get_functions().empty());
     f_service_ << endl;
     generate_service_interface(tservice);
     generate_service_client(tservice);
-- 
2.43.0


From 03e1e4edb33104f685d4bf11e884c164421e4cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:54 +0000
Subject: [PATCH 60/87] fix: generated defaults of containers and structs used
 an undefined name

---
 compiler/cpp/src/generate/t_go_generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 05045e3..3e555b5 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -971,7 +971,7 @@ void t_go_generator::generate_go_struct_definition(ofstream& out,
         const bool type_is_enum = type->is_enum();
 
         if (has_default_value) {
-            out << indent() << full_field_name << " = " << render_field_default_value(*m_iter, base_field_name) << endl;
+            out << indent() << full_field_name << " = " << render_field_default_value(*m_iter, full_field_name) << endl;
         } else if (type_is_enum) {
             out << indent() << full_field_name << " = math.MinInt32 - 1" << endl;
         }
-- 
2.43.0


From dc001bcde031afb203acac374347b91ddea95744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:40 +0000
Subject: [PATCH 61/87] fix: generated code for typedefs of structs did not
 compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 3e555b5..9734ac0 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2056,7 +2056,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                 string factory(tmp("factory"));
                 string jsProt(tmp("jsProt"));
                 string err2(tmp("err"));
-                std::string tstruct_name(publicize(the_type->get_name()));
+                std::string tstruct_name(publicize(the_type2->get_name()));
                 f_remote <<
                          indent() << arg << " := flag.Arg(" << flagArg << ")" << endl <<
                          indent() << mbTrans << " := thrift.NewTMemoryBufferLen(len(" << arg << "))" << endl <<
@@ -2111,7 +2111,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                          indent() << "}" << endl;
             }
 
-            if (the_type->is_typedef()) {
+            if (the_type->is_typedef() && !the_type2->is_struct() && !the_type2->is_xception()) {
                 f_remote <<
                          indent() << "value" << i << " := " << package_name_ << "." << publicize(the_type->get_name()) << "(argvalue" << i << ")" << endl;
             } else {
@@ -3329,6 +3329,13 @@ string t_go_generator::type_to_go_type(t_type* type)
         //string elemType = type_to_go_type(t->get_elem_type());
         //return string("[]") + elemType;
     } else if (type->is_typedef()) {
+        t_type* true_type = get_true_type(type);
+
+        if (true_type->is_struct() || true_type->is_xception()) {
+            // a type defined as a pointer would not have the methods
+            return type_to_go_type(true_type);
+        }
+
         return publicize(((t_typedef*)type)->get_symbolic());
     }
 
-- 
2.43.0


From 4bdd638beda5024748f2bcea02c42e25655db70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:57 +0000
Subject: [PATCH 62/87] fix: generated constants of structs named or typed some
 fields wrongly

---
 compiler/cpp/src/generate/t_go_generator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 9734ac0..7a1f4f1 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -756,15 +756,15 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
                 throw "type error: " + type->get_name() + " has no field " + v_iter->first->get_string();
             }
 
-            if (field_type->is_base_type() || field_type->is_enum()) {
+            if (get_true_type(field_type)->is_base_type() || get_true_type(field_type)->is_enum()) {
                 out <<
-                    indent() << name << "." << publicize(v_iter->first->get_string()) << " = " << render_const_value(field_type, v_iter->second, name) << endl;
+                    indent() << name << "." << publicize(variable_name_to_go_name(v_iter->first->get_string())) << " = " << render_const_value(field_type, v_iter->second, name) << endl;
             } else {
                 string k(tmp("k"));
                 string v(tmp("v"));
                 out <<
                     indent() << v << " := " << render_const_value(field_type, v_iter->second, v) << endl <<
-                    indent() << name << "." << publicize(v_iter->first->get_string()) << " = " << v << endl;
+                    indent() << name << "." << publicize(variable_name_to_go_name(v_iter->first->get_string())) << " = " << v << endl;
             }
         }
 
-- 
2.43.0


From 3bf0dfe024597f1b30529a9286e4f44c33185efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:15 +0000
Subject: [PATCH 63/87] fix: generated defaults and constants of negative bytes
 did not compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 7a1f4f1..defb6e2 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -713,6 +713,10 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
             break;
 
         case t_base_type::TYPE_BYTE:
+            // Go's byte has no negative values
+            out << (value->get_integer() & 0xff);
+            break;
+
         case t_base_type::TYPE_I16:
         case t_base_type::TYPE_I32:
         case t_base_type::TYPE_I64:
@@ -1106,6 +1110,11 @@ void t_go_generator::generate_isset_helpers(ofstream& out,
                     break;
 
                 case t_base_type::TYPE_BYTE:
+                    i_check_value = (field_default_value == NULL) ? 0 : field_default_value->get_integer() & 0xff;
+                    out <<
+                        indent() << "return p." << field_name << " != " << i_check_value << endl;
+                    break;
+
                 case t_base_type::TYPE_I16:
                 case t_base_type::TYPE_I32:
                 case t_base_type::TYPE_I64:
-- 
2.43.0


From f8d39cf7a1b715716933e5104a1905d8410df98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:52 +0000
Subject: [PATCH 64/87] fix: generated enums with a value of several names did
 not compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index defb6e2..d7ec422 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -28,6 +28,7 @@
 #include <string>
 #include <fstream>
 #include <iostream>
+#include <set>
 #include <vector>
 
 #include <stdlib.h>
@@ -622,6 +623,7 @@ void t_go_generator::generate_enum(t_enum* tenum)
     vector<t_enum_value*> constants = tenum->get_constants();
     vector<t_enum_value*>::iterator c_iter;
     int value = -1;
+    set<int> named_values;
 
     for (c_iter = constants.begin(); c_iter != constants.end(); ++c_iter) {
         if ((*c_iter)->has_value()) {
@@ -635,8 +637,11 @@ void t_go_generator::generate_enum(t_enum* tenum)
         f_types_ <<
                  indent() << "  " << tenum_name << "_" << iter_name << ' ' << tenum_name << " = " << value << endl;
         // Dictionaries to/from string names of enums
-        to_string_mapping <<
-                          indent() << "  case " << tenum_name << "_" << iter_name << ": return \"" << tenum_name << "_" << iter_std_name << "\"" << endl;
+        // Of several names of a value, the first is its string name
+        if (named_values.insert(value).second) {
+            to_string_mapping <<
+                              indent() << "  case " << tenum_name << "_" << iter_name << ": return \"" << tenum_name << "_" << iter_std_name << "\"" << endl;
+        }
 
         if (iter_std_name != escape_string(iter_name)) {
             from_string_mapping <<
-- 
2.43.0


From 3c42827e18579cedcfc259d51134bbbb728e3c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:07 +0000
Subject: [PATCH 65/87] fix: generated binary constants did not compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index d7ec422..69ed712 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -680,7 +680,7 @@ void t_go_generator::generate_const(t_const* tconst)
     string name = publicize(type->get_name()) + "_" + publicize(tconst->get_name());
     t_const_value* value = tconst->get_value();
 
-    if (type->is_base_type() || type->is_enum()) {
+    if ((type->is_base_type() && !((t_base_type*)type)->is_binary()) || type->is_enum()) {
         indent(f_types_) << "const " << name << " = " << render_const_value(type, value, name) << endl;
     } else {
         f_types_ <<
-- 
2.43.0


From 44d4776229b151c13d9a67e7f92bd5e090717d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:32 +0000
Subject: [PATCH 66/87] fix: generated command line tools converted some
 arguments to other types

---
 compiler/cpp/src/generate/t_go_generator.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 69ed712..e5a5446 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2001,8 +2001,14 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                     break;
 
                 case t_base_type::TYPE_STRING:
-                    f_remote <<
-                             indent() << "argvalue" << i << " := flag.Arg(" << flagArg << ")" << endl;
+                    if (((t_base_type*)the_type2)->is_binary()) {
+                        f_remote <<
+                                 indent() << "argvalue" << i << " := []byte(flag.Arg(" << flagArg << "))" << endl;
+                    } else {
+                        f_remote <<
+                                 indent() << "argvalue" << i << " := flag.Arg(" << flagArg << ")" << endl;
+                    }
+
                     break;
 
                 case t_base_type::TYPE_BOOL:
@@ -2027,7 +2033,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                              indent() << "  Usage()" << endl <<
                              indent() << "  return" << endl <<
                              indent() << "}" << endl <<
-                             indent() << "argvalue" << i << " := byte(tmp" << i << ")" << endl;
+                             indent() << "argvalue" << i << " := int16(tmp" << i << ")" << endl;
                     break;
 
                 case t_base_type::TYPE_I32:
@@ -2095,7 +2101,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                 string factory(tmp("factory"));
                 string jsProt(tmp("jsProt"));
                 string err2(tmp("err"));
-                std::string argName(publicize(args[i]->get_name()));
+                std::string argName(publicize(variable_name_to_go_name(args[i]->get_name())));
                 f_remote <<
                          indent() << arg << " := flag.Arg(" << flagArg << ")" << endl <<
                          indent() << mbTrans << " := thrift.NewTMemoryBufferLen(len(" << arg << "))" << endl <<
@@ -2108,7 +2114,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                          indent() << factory << " := thrift.NewTSimpleJSONProtocolFactory()" << endl <<
                          indent() << jsProt << " := " << factory << ".GetProtocol(" << mbTrans << ")" << endl <<
                          indent() << "containerStruct" << i << " := " << package_name_ << ".New" << pubName << "Args()" << endl <<
-                         indent() << err2 << " := containerStruct" << i << ".ReadField" << (i + 1) << "(" << jsProt << ")" << endl <<
+                         indent() << err2 << " := containerStruct" << i << ".ReadField" << args[i]->get_key() << "(" << jsProt << ")" << endl <<
                          indent() << "if " << err2 << " != nil {" << endl <<
                          indent() << "  Usage()" << endl <<
                          indent() << "  return" << endl <<
-- 
2.43.0


From 5c6186471a1c036da505f62e298a7e510207160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:11 +0000
Subject: [PATCH 67/87] fix: generated clients misnamed arguments and results
 of some functions

---
 compiler/cpp/src/generate/t_go_generator.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index e5a5446..df01b68 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1705,7 +1705,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                    indent() << "}" << endl << endl <<
                    indent() << "func (p *" << serviceName << "Client) Send" << function_signature(*f_iter) << "(err error) {" << endl;
         indent_up();
-        std::string argsname = privatize((*f_iter)->get_name()) + "Args";
+        std::string argsname = publicize((*f_iter)->get_name()) + "Args";
         // Serialize the request header
         string args(tmp("args"));
         f_service_ <<
@@ -1716,7 +1716,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                    indent() << "}" << endl <<
                    indent() << "p.SeqId++" << endl <<
                    indent() << "oprot.WriteMessageBegin(\"" << (*f_iter)->get_name() << "\", thrift.CALL, p.SeqId)" << endl <<
-                   indent() << args << " := New" << publicize(argsname) << "()" << endl;
+                   indent() << args << " := New" << argsname << "()" << endl;
 
         for (fld_iter = fields.begin(); fld_iter != fields.end(); ++fld_iter) {
             f_service_ <<
@@ -1734,7 +1734,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                    indent() << "}" << endl << endl;
 
         if (true) { //!(*f_iter)->is_oneway() || true) {}
-            std::string resultname = privatize((*f_iter)->get_name()) + "Result";
+            std::string resultname = publicize((*f_iter)->get_name()) + "Result";
             // Open function
             f_service_ << endl <<
                        indent() << "func (p *" << serviceName << "Client) Recv" << publicize((*f_iter)->get_name()) <<
@@ -1786,7 +1786,7 @@ void t_go_generator::generate_service_client(t_service* tservice)
                        indent() << "  err = thrift.NewTApplicationException(thrift.BAD_SEQUENCE_ID, \"ping failed: out of sequence response\")" << endl <<
                        indent() << "  return" << endl <<
                        indent() << "}" << endl <<
-                       indent() << result << " := New" << publicize(resultname) << "()" << endl <<
+                       indent() << result << " := New" << resultname << "()" << endl <<
                        indent() << "err = " << result << ".Read(iprot)" << endl <<
                        indent() << "iprot.ReadMessageEnd()" << endl;
 
-- 
2.43.0


From a8601a16e71922d9f3e9917d7cd1c3cad95b1a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:26 +0000
Subject: [PATCH 68/87] fix: generated clients misnamed exceptions named like
 Go keywords

---
 compiler/cpp/src/generate/t_go_generator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index df01b68..af81c54 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1802,8 +1802,8 @@ void t_go_generator::generate_service_client(t_service* tservice)
 
             for (x_iter = xceptions.begin(); x_iter != xceptions.end(); ++x_iter) {
                 f_service_ <<
-                           indent() << "if " << result << "." << publicize((*x_iter)->get_name()) << " != nil {" << endl <<
-                           indent() << "  " << (*x_iter)->get_name() << " = " << result << "." << publicize((*x_iter)->get_name()) << endl <<
+                           indent() << "if " << result << "." << publicize(variable_name_to_go_name((*x_iter)->get_name())) << " != nil {" << endl <<
+                           indent() << "  " << variable_name_to_go_name((*x_iter)->get_name()) << " = " << result << "." << publicize(variable_name_to_go_name((*x_iter)->get_name())) << endl <<
                            indent() << "}" << endl;
             }
 
-- 
2.43.0


From f79f0f04b8f500c9014fd13947540c11097edf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:06 +0000
Subject: [PATCH 69/87] fix: generated services that extend one of their own
 file did not compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index af81c54..89cf0c3 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1440,7 +1440,7 @@ void t_go_generator::generate_service(t_service* tservice)
                go_package() <<
                go_imports();
 
-    if (tservice->get_extends() != NULL) {
+    if (tservice->get_extends() != NULL && tservice->get_extends()->get_program() != program_) {
         f_service_ <<
                    "import \"" << get_real_go_module(tservice->get_extends()->get_program()) << "\"" << endl;
     }
@@ -3225,6 +3225,10 @@ string t_go_generator::type_name(t_type* ttype)
 {
     t_program* program = ttype->get_program();
 
+    if (ttype->is_service() && program == program_) {
+        return ttype->get_name();
+    }
+
     if (ttype->is_service()) {
         return get_real_go_module(program) + "." + ttype->get_name();
     }
-- 
2.43.0


From 279b985596f827036602687e2e9c9eb34123fd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:23 +0000
Subject: [PATCH 70/87] fix: generated command line tools of empty services did
 not compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 89cf0c3..2aaafd4 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1961,6 +1961,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
              indent() << "  os.Exit(1)" << endl <<
              indent() << "}" << endl <<
              indent() << endl <<
+             (functions.empty() ? "  _ = client\n" : "") <<
              indent() << "switch cmd {" << endl;
 
     for (f_iter = functions.begin(); f_iter != functions.end(); ++f_iter) {
-- 
2.43.0


From 11c82cdf2184a508a5a9e22accf6c9ab44c5dfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:11 +0000
Subject: [PATCH 71/87] fix: generated structs with negative field ids did not
 compile

---
 compiler/cpp/src/generate/t_go_generator.cc | 67 ++++++++++++++++-----
 1 file changed, 52 insertions(+), 15 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 2aaafd4..771b6a6 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -244,6 +244,7 @@ private:
     static std::string publicize(const std::string& value);
     static std::string privatize(const std::string& value);
     static std::string variable_name_to_go_name(const std::string& value);
+    static std::string field_method_id(int32_t field_id);
     static bool can_be_nil(t_type* value);
 
 };
@@ -414,6 +415,22 @@ std::string t_go_generator::variable_name_to_go_name(const std::string& value)
     return value2 + "_a1";
 }
 
+/**
+ * The part of the name of a field's methods that stands for its id
+ */
+std::string t_go_generator::field_method_id(int32_t field_id)
+{
+    std::ostringstream out;
+
+    if (field_id < 0) {
+        out << "_" << -(int64_t)field_id;
+    } else {
+        out << field_id;
+    }
+
+    return out.str();
+}
+
 
 /**
  * Prepares for file generation by opening up the necessary file output
@@ -940,8 +957,9 @@ void t_go_generator::generate_go_struct_definition(ofstream& out,
         for (m_iter = members.begin(); m_iter != members.end(); ++m_iter) {
             // This fills in default values, as opposed to nulls
             out <<
-                indent() << publicize((*m_iter)->get_name()) << " " <<
-                type_to_enum((*m_iter)->get_type()) << endl;
+                indent() << publicize(variable_name_to_go_name((*m_iter)->get_name())) << " " <<
+                type_to_go_type((*m_iter)->get_type()) << " \"" << escape_string((*m_iter)->get_name()) <<
+                "\"; // " << (*m_iter)->get_key() << endl;
         }
     }
 
@@ -1190,11 +1208,30 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
     // Loop over reading in fields
     indent(out) << "for {" << endl;
     indent_up();
+    bool has_negative_ids = false;
+
+    for (f_iter = fields.begin(); f_iter != fields.end(); ++f_iter) {
+        has_negative_ids = has_negative_ids || (*f_iter)->get_key() < 0;
+    }
+
     // Read beginning field marker
     out <<
-        indent() << "fieldName, fieldTypeId, fieldId, err := iprot.ReadFieldBegin()" << endl <<
-        indent() << "if fieldId < 0 {" << endl <<
-        indent() << "  fieldId = int16(p.FieldIdFromFieldName(fieldName))" << endl <<
+        indent() << "fieldName, fieldTypeId, fieldId, err := iprot.ReadFieldBegin()" << endl;
+
+    if (has_negative_ids) {
+        // A negative id may be that of a field, unless the field is known by
+        // its name only
+        out <<
+            indent() << "if fieldId < 0 && fieldName != \"\" {" << endl <<
+            indent() << "  fieldId = int16(p.FieldIdFromFieldName(fieldName))" << endl <<
+            indent() << "  if p.FieldNameFromFieldId(int(fieldId)) != fieldName { fieldId = math.MinInt16; }" << endl;
+    } else {
+        out <<
+            indent() << "if fieldId < 0 {" << endl <<
+            indent() << "  fieldId = int16(p.FieldIdFromFieldName(fieldName))" << endl;
+    }
+
+    out <<
         indent() << "} else if fieldName == \"\" {" << endl <<
         indent() << "  fieldName = p.FieldNameFromFieldId(int(fieldId))" << endl <<
         indent() << "}" << endl <<
@@ -1233,13 +1270,13 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
 
         out <<
             indent() << "if fieldTypeId == " << thriftFieldTypeId << " {" << endl <<
-            indent() << "  err = p.ReadField" << field_id << "(iprot)" << endl <<
+            indent() << "  err = p.ReadField" << field_method_id(field_id) << "(iprot)" << endl <<
             indent() << "  if err != nil { return thrift.NewTProtocolExceptionReadField(int(fieldId), fieldName, p.ThriftName(), err); }" << endl <<
             indent() << "} else if fieldTypeId == thrift.VOID {" << endl <<
             indent() << "  err = iprot.Skip(fieldTypeId)" << endl <<
             indent() << "  if err != nil { return thrift.NewTProtocolExceptionReadField(int(fieldId), fieldName, p.ThriftName(), err); }" << endl <<
             indent() << "} else {" << endl <<
-            indent() << "  err = p.ReadField" << field_id << "(iprot)" << endl <<
+            indent() << "  err = p.ReadField" << field_method_id(field_id) << "(iprot)" << endl <<
             indent() << "  if err != nil { return thrift.NewTProtocolExceptionReadField(int(fieldId), fieldName, p.ThriftName(), err); }" << endl <<
             indent() << "}" << endl;
         indent_down();
@@ -1277,7 +1314,7 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
         string field_name(publicize((*f_iter)->get_name()));
         int32_t field_id = (*f_iter)->get_key();
         out <<
-            indent() << "func (p *" << tstruct_name << ") ReadField" << field_id << "(iprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
+            indent() << "func (p *" << tstruct_name << ") ReadField" << field_method_id(field_id) << "(iprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
         indent_up();
         generate_deserialize_field(out, *f_iter, false, "p.");
         indent_down();
@@ -1285,7 +1322,7 @@ void t_go_generator::generate_go_struct_reader(ofstream& out,
             indent() << "  return err" << endl <<
             indent() << "}" << endl << endl <<
             indent() << "func (p *" << tstruct_name << ") ReadField" << field_name << "(iprot thrift.TProtocol) (thrift.TProtocolException) {" << endl <<
-            indent() << "  return p.ReadField" << field_id << "(iprot)" << endl <<
+            indent() << "  return p.ReadField" << field_method_id(field_id) << "(iprot)" << endl <<
             indent() << "}" << endl << endl;
     }
 }
@@ -1324,13 +1361,13 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             if (can_be_nil((*fr_iter)->get_type()) && fieldId != 0) {
                 out <<
                     indent() << "case p." << publicize(variable_name_to_go_name(field_name)) << " != nil:" << endl <<
-                    indent() << "  if err = p.WriteField" << fieldId << "(oprot); err != nil {" << endl <<
+                    indent() << "  if err = p.WriteField" << field_method_id(fieldId) << "(oprot); err != nil {" << endl <<
                     indent() << "    return err" << endl <<
                     indent() << "  }" << endl;
             } else {
                 out <<
                     indent() << "default:" << endl <<
-                    indent() << "  if err = p.WriteField" << fieldId << "(oprot); err != nil {" << endl <<
+                    indent() << "  if err = p.WriteField" << field_method_id(fieldId) << "(oprot); err != nil {" << endl <<
                     indent() << "    return err" << endl <<
                     indent() << "  }" << endl;
             }
@@ -1344,7 +1381,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             escape_field_name = escape_string(field_name);
             fieldId = (*f_iter)->get_key();
             out <<
-                indent() << "err = p.WriteField" << fieldId << "(oprot)" << endl <<
+                indent() << "err = p.WriteField" << field_method_id(fieldId) << "(oprot)" << endl <<
                 indent() << "if err != nil { return err }" << endl;
         }
     }
@@ -1369,7 +1406,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
         field_required = (*f_iter)->get_req();
         field_can_be_nil = can_be_nil((*f_iter)->get_type());
         out <<
-            indent() << "func (p *" << tstruct_name << ") WriteField" << fieldId << "(oprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
+            indent() << "func (p *" << tstruct_name << ") WriteField" << field_method_id(fieldId) << "(oprot thrift.TProtocol) (err thrift.TProtocolException) {" << endl;
         indent_up();
 
         // Write field header
@@ -1421,7 +1458,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             indent() << "  return err" << endl <<
             indent() << "}" << endl << endl <<
             indent() << "func (p *" << tstruct_name << ") WriteField" << publicize(field_name) << "(oprot thrift.TProtocol) (thrift.TProtocolException) {" << endl <<
-            indent() << "  return p.WriteField" << fieldId << "(oprot)" << endl <<
+            indent() << "  return p.WriteField" << field_method_id(fieldId) << "(oprot)" << endl <<
             indent() << "}" << endl << endl;
     }
 }
@@ -2115,7 +2152,7 @@ void t_go_generator::generate_service_remote(t_service* tservice)
                          indent() << factory << " := thrift.NewTSimpleJSONProtocolFactory()" << endl <<
                          indent() << jsProt << " := " << factory << ".GetProtocol(" << mbTrans << ")" << endl <<
                          indent() << "containerStruct" << i << " := " << package_name_ << ".New" << pubName << "Args()" << endl <<
-                         indent() << err2 << " := containerStruct" << i << ".ReadField" << args[i]->get_key() << "(" << jsProt << ")" << endl <<
+                         indent() << err2 << " := containerStruct" << i << ".ReadField" << field_method_id(args[i]->get_key()) << "(" << jsProt << ")" << endl <<
                          indent() << "if " << err2 << " != nil {" << endl <<
                          indent() << "  Usage()" << endl <<
                          indent() << "  return" << endl <<
-- 
2.43.0


From 5c17a03921bb5e3011ebd95540aeb434aa02406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:51 +0000
Subject: [PATCH 72/87] fix: generated writers of containers of enums or
 typedefs failed, and readers dropped their elements

---
 compiler/cpp/src/generate/t_go_generator.cc | 23 ++++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 771b6a6..7fec94c 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -214,6 +214,7 @@ public:
     std::string function_signature_if(t_function* tfunction, std::string prefix = "", bool addOsError = false);
     std::string argument_list(t_struct* tstruct);
     std::string type_to_enum(t_type* ttype);
+    std::string stored_go_type(t_type* ttype);
     std::string type_to_go_type(t_type* ttype);
     std::string type_to_spec_args(t_type* ttype);
 
@@ -2620,11 +2621,8 @@ void t_go_generator::generate_deserialize_field(ofstream &out,
             "\", " << structName << ", " << err2 << "); }" << endl;
 
         if (!prefix.size() || prefix.find(".") == string::npos) {
-            if (type->is_enum() || orig_type->is_typedef()) {
-                indent(out) << name << " := " << publicize(orig_type->get_name()) << "(" << v << ")" << endl;
-            } else {
-                indent(out) << name << " := " << v << endl;
-            }
+            // an element, which containers store without its declared type
+            indent(out) << name << " := " << v << endl;
         } else {
             if (type->is_enum() || orig_type->is_typedef()) {
                 indent(out) << name << " = " << publicize(orig_type->get_name()) << "(" << v << ")" << endl;
@@ -2970,7 +2968,7 @@ void t_go_generator::generate_serialize_container(ofstream &out,
         t_map* tmap = (t_map*)ttype;
         out <<
             indent() << "for " << miter << " := range " << prefix << ".Iter() {" << endl <<
-            indent() << "  " << kiter << ", " << viter << " := " << miter << ".Key().(" << type_to_go_type(tmap->get_key_type()) << "), " << miter << ".Value().(" << type_to_go_type(tmap->get_val_type()) << ")" << endl;
+            indent() << "  " << kiter << ", " << viter << " := " << miter << ".Key().(" << stored_go_type(tmap->get_key_type()) << "), " << miter << ".Value().(" << stored_go_type(tmap->get_val_type()) << ")" << endl;
         indent_up();
         generate_serialize_map_element(out, tmap, kiter, viter);
         indent_down();
@@ -2981,7 +2979,7 @@ void t_go_generator::generate_serialize_container(ofstream &out,
         string iter2 = tmp("Iter");
         out <<
             indent() << "for " << iter << " := " << prefix << ".Front(); " << iter << " != nil; " << iter << " = " << iter << ".Next() {" << endl <<
-            indent() << "  " << iter2 << " := " << iter << ".Value.(" << type_to_go_type(tset->get_elem_type()) << ")" << endl;
+            indent() << "  " << iter2 << " := " << iter << ".Value.(" << stored_go_type(tset->get_elem_type()) << ")" << endl;
         indent_up();
         generate_serialize_set_element(out, tset, iter2);
         indent_down();
@@ -2992,7 +2990,7 @@ void t_go_generator::generate_serialize_container(ofstream &out,
         string iter2 = tmp("Iter");
         out <<
             indent() << "for " << iter << " := range " << prefix << ".Iter() {" << endl <<
-            indent() << "  " << iter2 << " := " << iter << ".(" << type_to_go_type(tlist->get_elem_type()) << ")" << endl;
+            indent() << "  " << iter2 << " := " << iter << ".(" << stored_go_type(tlist->get_elem_type()) << ")" << endl;
         indent_up();
         generate_serialize_list_element(out, tlist, iter2);
         indent_down();
@@ -3405,6 +3403,15 @@ string t_go_generator::type_to_go_type(t_type* type)
 }
 
 
+/**
+ * The go type as which the containers store values of the parse type
+ */
+string t_go_generator::stored_go_type(t_type* type)
+{
+    type = get_true_type(type);
+    return type->is_enum() ? "int32" : type_to_go_type(type);
+}
+
 /**
  * Converts the parse type to a go tyoe
  */
-- 
2.43.0


From a27332fd9b4fadba74225bc2f3bf34966a8d6084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:35 +0000
Subject: [PATCH 73/87] fix: generated readers of containers with binary
 elements kept them as strings

---
 compiler/cpp/src/generate/t_go_generator.cc | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 7fec94c..0cc5590 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2670,13 +2670,7 @@ void t_go_generator::generate_deserialize_container(ofstream &out,
         string err)
 {
     string size = tmp("_size");
-    string ktype = tmp("_ktype");
-    string vtype = tmp("_vtype");
-    string etype = tmp("_etype");
     t_field fsize(g_type_i32, size);
-    t_field fktype(g_type_byte, ktype);
-    t_field fvtype(g_type_byte, vtype);
-    t_field fetype(g_type_byte, etype);
     string eq(" = ");
 
     if (declare) {
@@ -2686,34 +2680,36 @@ void t_go_generator::generate_deserialize_container(ofstream &out,
     // Declare variables, read header
     if (ttype->is_map()) {
         out <<
-            indent() << ktype << ", " << vtype << ", " << size << ", " << err << " := iprot.ReadMapBegin()" << endl <<
+            indent() << "_, _, " << size << ", " << err << " := iprot.ReadMapBegin()" << endl <<
             indent() << "if " << err << " != nil {" << endl <<
             indent() << "  return thrift.NewTProtocolExceptionReadField(" <<
             -1 << ", \"" <<
             escape_string(prefix) << "\", \"\", " <<
             err << ")" << endl <<
             indent() << "}" << endl <<
-            indent() << prefix << eq << "thrift.NewTMap(" << ktype << ", " << vtype << ", " << size << ")" << endl;
+            indent() << prefix << eq << "thrift.NewTMap(" <<
+            type_to_enum(((t_map*)ttype)->get_key_type()) << ", " <<
+            type_to_enum(((t_map*)ttype)->get_val_type()) << ", " << size << ")" << endl;
     } else if (ttype->is_set()) {
         out <<
-            indent() << etype << ", " << size << ", " << err << " := iprot.ReadSetBegin()" << endl <<
+            indent() << "_, " << size << ", " << err << " := iprot.ReadSetBegin()" << endl <<
             indent() << "if " << err << " != nil {" << endl <<
             indent() << "  return thrift.NewTProtocolExceptionReadField(" <<
             -1 << ", \"" <<
             escape_string(prefix) << "\", \"\", " <<
             err << ")" << endl <<
             indent() << "}" << endl <<
-            indent() << prefix << eq << "thrift.NewTSet(" << etype << ", " << size << ")" << endl;
+            indent() << prefix << eq << "thrift.NewTSet(" << type_to_enum(((t_set*)ttype)->get_elem_type()) << ", " << size << ")" << endl;
     } else if (ttype->is_list()) {
         out <<
-            indent() << etype << ", " << size << ", " << err << " := iprot.ReadListBegin()" << endl <<
+            indent() << "_, " << size << ", " << err << " := iprot.ReadListBegin()" << endl <<
             indent() << "if " << err << " != nil {" << endl <<
             indent() << "  return thrift.NewTProtocolExceptionReadField(" <<
             -1 << ", \"" <<
             escape_string(prefix) << "\", \"\", " <<
             err << ")" << endl <<
             indent() << "}" << endl <<
-            indent() << prefix << eq << "thrift.NewTList(" << etype << ", " << size << ")" << endl;
+            indent() << prefix << eq << "thrift.NewTList(" << type_to_enum(((t_list*)ttype)->get_elem_type()) << ", " << size << ")" << endl;
     } else {
         throw "INVALID TYPE IN generate_deserialize_container '" + ttype->get_name() + "' for prefix '" + prefix + "'";
     }
-- 
2.43.0


From d745d136144403ed8ff97bf5fe0b1c50a09bdf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:40 +0000
Subject: [PATCH 74/87] fix: generated defaults and constants of doubles lost
 precision

---
 compiler/cpp/src/generate/t_go_generator.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 0cc5590..469724d 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -750,6 +750,8 @@ string t_go_generator::render_const_value(t_type* type, t_const_value* value, co
             if (value->get_type() == t_const_value::CV_INTEGER) {
                 out << value->get_integer();
             } else {
+                // as many digits as tell the value from its neighbours
+                out.precision(17);
                 out << value->get_double();
             }
 
@@ -1108,7 +1110,6 @@ void t_go_generator::generate_isset_helpers(ofstream& out,
             indent_up();
             string s_check_value;
             int64_t i_check_value;
-            double d_check_value;
 
             if (type->is_base_type()) {
                 t_base_type::t_base tbase = ((t_base_type*)type)->get_base();
@@ -1148,9 +1149,9 @@ void t_go_generator::generate_isset_helpers(ofstream& out,
                     break;
 
                 case t_base_type::TYPE_DOUBLE:
-                    d_check_value = (field_default_value == NULL) ? 0.0 : field_default_value->get_double();
+                    s_check_value = (field_default_value == NULL) ? "0" : render_const_value(type, field_default_value, tstruct_name);
                     out <<
-                        indent() << "return p." << field_name << " != " << d_check_value << endl;
+                        indent() << "return p." << field_name << " != " << s_check_value << endl;
                     break;
 
                 default:
-- 
2.43.0


From 4cd1e18924985eb7bf0070df457a12876bcf6f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:13 +0000
Subject: [PATCH 75/87] fix: generated writers wrote unset fields of typedefs
 of enums

---
 compiler/cpp/src/generate/t_go_generator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index 469724d..cf100d4 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -1418,7 +1418,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             indent_up();
         }
 
-        if (field_required == t_field::T_OPTIONAL || (*f_iter)->get_type()->is_enum()) {
+        if (field_required == t_field::T_OPTIONAL || get_true_type((*f_iter)->get_type())->is_enum()) {
             out <<
                 indent() << "if p.IsSet" << publicize(variable_name_to_go_name(field_name)) << "() {" << endl;
             indent_up();
@@ -1443,7 +1443,7 @@ void t_go_generator::generate_go_struct_writer(ofstream& out,
             escape_field_name << "\", " <<
             "p.ThriftName(), err); }" << endl;
 
-        if (field_required == t_field::T_OPTIONAL || (*f_iter)->get_type()->is_enum()) {
+        if (field_required == t_field::T_OPTIONAL || get_true_type((*f_iter)->get_type())->is_enum()) {
             indent_down();
             out <<
                 indent() << "}" << endl;
-- 
2.43.0


From 65b228d41568c1af297f12444e2fdbb49a8b2738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:12 +0000
Subject: [PATCH 76/87] fix: generated processors replied to calls of oneway
 functions

---
 compiler/cpp/src/generate/t_go_generator.cc | 36 ++++++++++++++++++---
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/compiler/cpp/src/generate/t_go_generator.cc b/compiler/cpp/src/generate/t_go_generator.cc
index cf100d4..6167e71 100644
--- a/compiler/cpp/src/generate/t_go_generator.cc
+++ b/compiler/cpp/src/generate/t_go_generator.cc
@@ -2400,16 +2400,29 @@ void t_go_generator::generate_process_function(t_service* tservice,
     f_service_ <<
                indent() << "args := New" << argsname << "()" << endl <<
                indent() << "if err = args.Read(iprot); err != nil {" << endl <<
-               indent() << "  iprot.ReadMessageEnd()" << endl <<
+               indent() << "  iprot.ReadMessageEnd()" << endl;
+
+    // Nobody waits for the reply to a oneway function
+    if (!tfunction->is_oneway()) {
+        f_service_ <<
                indent() << "  x := thrift.NewTApplicationException(thrift.PROTOCOL_ERROR, err.Error())" << endl <<
                indent() << "  oprot.WriteMessageBegin(\"" << escape_string(tfunction->get_name()) << "\", thrift.EXCEPTION, seqId)" << endl <<
                indent() << "  x.Write(oprot)" << endl <<
                indent() << "  oprot.WriteMessageEnd()" << endl <<
-               indent() << "  oprot.Transport().Flush()" << endl <<
+               indent() << "  oprot.Transport().Flush()" << endl;
+    }
+
+    f_service_ <<
                indent() << "  return" << endl <<
                indent() << "}" << endl <<
-               indent() << "iprot.ReadMessageEnd()" << endl <<
-               indent() << "result := New" << resultname << "()" << endl <<
+               indent() << "iprot.ReadMessageEnd()" << endl;
+
+    if (!tfunction->is_oneway()) {
+        f_service_ <<
+               indent() << "result := New" << resultname << "()" << endl;
+    }
+
+    f_service_ <<
                indent() << "if ";
 
     if (!tfunction->is_oneway()) {
@@ -2444,7 +2457,20 @@ void t_go_generator::generate_process_function(t_service* tservice,
         f_service_ << "args." << publicize(variable_name_to_go_name((*f_iter)->get_name()));
     }
 
-    f_service_ << "); err != nil {" << endl <<
+    f_service_ << "); err != nil {" << endl;
+
+    if (tfunction->is_oneway()) {
+        f_service_ <<
+               indent() << "  return" << endl <<
+               indent() << "}" << endl <<
+               indent() << "return true, err" << endl;
+        indent_down();
+        f_service_ <<
+               indent() << "}" << endl << endl;
+        return;
+    }
+
+    f_service_ <<
                indent() << "  x := thrift.NewTApplicationException(thrift.INTERNAL_ERROR, \"Internal error processing " << escape_string(tfunction->get_name()) << ": \" + err.Error())" << endl <<
                indent() << "  oprot.WriteMessageBegin(\"" << escape_string(tfunction->get_name()) << "\", thrift.EXCEPTION, seqId)" << endl <<
                indent() << "  x.Write(oprot)" << endl <<
-- 
2.43.0


From 94bacea62699cc32645211b6d47bd0470d939786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:42 +0000
Subject: [PATCH 77/87] fix: a stream transport factory given a closed two-way
 stream transport panicked

---
 lib/go/src/thrift/tiostream_transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tiostream_transport.go b/lib/go/src/thrift/tiostream_transport.go
index 071ec58..1479b86 100644
--- a/lib/go/src/thrift/tiostream_transport.go
+++ b/lib/go/src/thrift/tiostream_transport.go
@@ -47,7 +47,7 @@ func (p *TIOStreamTransportFactory) GetTransport(trans TTransport) TTransport {
 	if trans != nil {
 		t, ok := trans.(*TIOStreamTransport)
 		if ok {
-			if t.IsReadWriter {
+			if t.IsReadWriter && t.Reader != nil {
 				return NewTIOStreamTransportRW(t.Reader.(io.ReadWriter))
 			}
 			if t.Reader != nil && t.Writer != nil {
-- 
2.43.0


From e1a27383754a73b7c36770dcca878768422d6376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:44 +0000
Subject: [PATCH 78/87] fix: a server socket listened on tcp whatever the
 network of its address

---
 lib/go/src/thrift/tserver_socket.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/go/src/thrift/tserver_socket.go b/lib/go/src/thrift/tserver_socket.go
index 69043b6..5afd3aa 100644
--- a/lib/go/src/thrift/tserver_socket.go
+++ b/lib/go/src/thrift/tserver_socket.go
@@ -97,12 +97,12 @@ func NewTServerSocketAddrTimeout(addr net.Addr, nsecClientTimeout int64) (*TServ
 func (p *TServerSocket) Listen() error {
 	p.mutex.Lock()
 	defer p.mutex.Unlock()
-	return p.listen("tcp")
+	return p.listen()
 }
 
-func (p *TServerSocket) listen(network string) error {
+func (p *TServerSocket) listen() error {
 	if p.listener == nil {
-		l, err := net.Listen(network, p.addr.String())
+		l, err := net.Listen(p.addr.Network(), p.addr.String())
 		if err != nil {
 			return err
 		}
@@ -122,7 +122,7 @@ func (p *TServerSocket) acceptListener() (net.Listener, error) {
 		if p.closed {
 			return nil, NewTTransportException(NOT_OPEN, "No underlying server socket")
 		}
-		if err := p.listen("tcp"); err != nil {
+		if err := p.listen(); err != nil {
 			return nil, NewTTransportExceptionFromOsError(err)
 		}
 	}
@@ -157,7 +157,7 @@ func (p *TServerSocket) Open() error {
 	p.mutex.Lock()
 	defer p.mutex.Unlock()
 	if p.listener == nil {
-		return p.listen(p.addr.Network())
+		return p.listen()
 	}
 	return NewTTransportException(ALREADY_OPEN, "Server socket already open")
 }
-- 
2.43.0


From 598bc4b6871075ced8ecbdfcdfd8e0da59cdb451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:46 +0000
Subject: [PATCH 79/87] fix: a socket whose connection failed to close, or was
 interrupted, stayed open for ever

---
 lib/go/src/thrift/tnonblocking_socket.go | 6 ++++--
 lib/go/src/thrift/tsocket.go             | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_socket.go b/lib/go/src/thrift/tnonblocking_socket.go
index a811149..7968e91 100644
--- a/lib/go/src/thrift/tnonblocking_socket.go
+++ b/lib/go/src/thrift/tnonblocking_socket.go
@@ -184,11 +184,13 @@ func (p *TNonblockingSocket) Peek() bool {
  */
 func (p *TNonblockingSocket) Close() error {
 	if p.conn != nil {
-		if err := p.conn.Close(); err != nil {
+		err := p.conn.Close()
+		// The connection is of no more use even if closing it failed
+		p.conn = nil
+		if err != nil {
 			LOGGER.Print("Could not close socket.", err.Error())
 			return err
 		}
-		p.conn = nil
 	}
 	return nil
 }
diff --git a/lib/go/src/thrift/tsocket.go b/lib/go/src/thrift/tsocket.go
index 0e4962a..e02be54 100644
--- a/lib/go/src/thrift/tsocket.go
+++ b/lib/go/src/thrift/tsocket.go
@@ -173,13 +173,14 @@ func (p *TSocket) Close() error {
 	// Close the socket
 	if p.conn != nil {
 		err := p.conn.Close()
+		// The connection is of no more use even if closing it failed
+		p.conn = nil
+		// What was not flushed must not be sent on the next connection
+		p.writeBuffer.Reset()
 		if err != nil {
 			LOGGER.Print("Could not close socket. ", err.Error())
 			return err
 		}
-		p.conn = nil
-		// What was not flushed must not be sent on the next connection
-		p.writeBuffer.Reset()
 	}
 	return nil
 }
-- 
2.43.0


From fcaae700f8041e1dfc7d0e2af47675eec3b7aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:10 +0000
Subject: [PATCH 80/87] fix: 16 bit integers were not taken as type codes

---
 lib/go/src/thrift/ttype.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index e025fc8..f3e4c59 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -232,12 +232,16 @@ func (p TType) Coerce(other interface{}) TType {
 		return TType(byte(b))
 	case int8:
 		return TType(byte(b))
+	case int16:
+		return TType(byte(b))
 	case int32:
 		return TType(byte(b))
 	case int64:
 		return TType(byte(b))
 	case uint:
 		return TType(byte(b))
+	case uint16:
+		return TType(byte(b))
 	case uint32:
 		return TType(byte(b))
 	case uint64:
-- 
2.43.0


From a0230dfecfceef95e65f8b6dbe6a34f0b003c3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:12 +0000
Subject: [PATCH 81/87] fix: comparing a message with nil panicked

---
 lib/go/src/thrift/tmessage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tmessage.go b/lib/go/src/thrift/tmessage.go
index 749fba0..f7ade9e 100644
--- a/lib/go/src/thrift/tmessage.go
+++ b/lib/go/src/thrift/tmessage.go
@@ -64,7 +64,7 @@ func (p *tMessage) String() string {
 }
 
 func (p *tMessage) Equals(other TMessage) bool {
-	return p.name == other.Name() && p.typeId == other.TypeId() && p.seqid == other.SeqId()
+	return other != nil && p.name == other.Name() && p.typeId == other.TypeId() && p.seqid == other.SeqId()
 }
 
 var EMPTY_MESSAGE TMessage
-- 
2.43.0


From bc491841d3a038eb0be8c8d328d5a302e56a87f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:08 +0000
Subject: [PATCH 82/87] fix: a framed transport kept unread and unflushed bytes
 of a closed connection for the next one

---
 lib/go/src/thrift/tframed_transport.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index f362066..ec2f8e6 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -61,6 +61,9 @@ func (p *TFramedTransport) Peek() bool {
 }
 
 func (p *TFramedTransport) Close() error {
+	// What was not flushed or not read must not turn up on the next connection
+	p.writeBuffer.Reset()
+	p.readBuffer.Reset()
 	return p.transport.Close()
 }
 
-- 
2.43.0


From 53b28455ba09ff5c103656dc016d4949d0c2e22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:10 +0000
Subject: [PATCH 83/87] fix: JSON protocols took the end of one message for the
 failure of the next one

---
 lib/go/src/thrift/tsimple_json_protocol.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 18dbf4b..be04696 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -88,13 +88,30 @@ type TSimpleJSONProtocol struct {
 	reader *bufio.Reader
 }
 
+/**
+ * Reader for the read buffer, which would keep an error reported together with
+ * data until long after: the end of one HTTP response, for example, would be
+ * taken for the end of the next one.  An error that lasts is reported again.
+ */
+type jsonReader struct {
+	trans TTransport
+}
+
+func (p jsonReader) Read(buf []byte) (int, error) {
+	n, err := p.trans.Read(buf)
+	if n > 0 {
+		return n, nil
+	}
+	return n, err
+}
+
 /**
  * Constructor
  */
 func NewTSimpleJSONProtocol(t TTransport) *TSimpleJSONProtocol {
 	v := &TSimpleJSONProtocol{trans: t,
 		writer: t,
-		reader: bufio.NewReader(t),
+		reader: bufio.NewReader(jsonReader{t}),
 	}
 	v.parseContextStack = append(v.parseContextStack, int(_CONTEXT_IN_TOPLEVEL))
 	v.dumpContext = append(v.dumpContext, int(_CONTEXT_IN_TOPLEVEL))
-- 
2.43.0


From 5d49de7880e46bf6fe86f46c6d2c8650b3f03c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:10 +0000
Subject: [PATCH 84/87] fix: JSON protocols took the next message for part of
 one that broke off

---
 lib/go/src/thrift/tjson_protocol.go        |  2 ++
 lib/go/src/thrift/tsimple_json_protocol.go | 23 ++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index fb161de..5b2c386 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -66,6 +66,7 @@ func NewTJSONProtocolFactory() *TJSONProtocolFactory {
 }
 
 func (p *TJSONProtocol) WriteMessageBegin(name string, typeId TMessageType, seqId int32) TProtocolException {
+	p.dropUnwritten()
 	if e := p.OutputListBegin(); e != nil {
 		return e
 	}
@@ -208,6 +209,7 @@ func (p *TJSONProtocol) WriteBinary(v []byte) TProtocolException {
  */
 
 func (p *TJSONProtocol) ReadMessageBegin() (name string, typeId TMessageType, seqId int32, err TProtocolException) {
+	p.dropUnread()
 	if isNull, err := p.ParseListBegin(); isNull || err != nil {
 		return name, typeId, seqId, err
 	}
diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index be04696..924dfb4 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -185,7 +185,29 @@ func JsonUnquote(s string) (string, bool) {
 	return *s1, err == nil
 }
 
+/**
+ * Forgets about a message that was not written to its end, as when the
+ * connection failed.
+ */
+func (p *TSimpleJSONProtocol) dropUnwritten() {
+	for len(p.dumpContext) > 1 && _ParseContext(p.dumpContext[len(p.dumpContext)-1]) != _CONTEXT_IN_TOPLEVEL {
+		p.dumpContext = p.dumpContext[:len(p.dumpContext)-1]
+	}
+}
+
+/**
+ * Forgets about a message that was not read to its end, as when the connection
+ * failed: its remains are of no use for the next one.
+ */
+func (p *TSimpleJSONProtocol) dropUnread() {
+	for len(p.parseContextStack) > 1 && _ParseContext(p.parseContextStack[len(p.parseContextStack)-1]) != _CONTEXT_IN_TOPLEVEL {
+		p.parseContextStack = p.parseContextStack[:len(p.parseContextStack)-1]
+		p.reader.Discard(p.reader.Buffered())
+	}
+}
+
 func (p *TSimpleJSONProtocol) WriteMessageBegin(name string, typeId TMessageType, seqId int32) TProtocolException {
+	p.dropUnwritten()
 	if e := p.OutputListBegin(); e != nil {
 		return e
 	}
@@ -320,6 +342,7 @@ func (p *TSimpleJSONProtocol) WriteBinary(v []byte) TProtocolException {
  */
 
 func (p *TSimpleJSONProtocol) ReadMessageBegin() (name string, typeId TMessageType, seqId int32, err TProtocolException) {
+	p.dropUnread()
 	if isNull, err := p.ParseListBegin(); isNull || err != nil {
 		return name, typeId, seqId, err
 	}
-- 
2.43.0


From 6c25d73d25a44d5727333b4006dbe571056f8cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:51 +0000
Subject: [PATCH 85/87] fix: JSON protocols could not read base64 with an
 escaped slash

---
 lib/go/src/thrift/tsimple_json_protocol.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/go/src/thrift/tsimple_json_protocol.go b/lib/go/src/thrift/tsimple_json_protocol.go
index 924dfb4..a7f6afe 100644
--- a/lib/go/src/thrift/tsimple_json_protocol.go
+++ b/lib/go/src/thrift/tsimple_json_protocol.go
@@ -960,6 +960,14 @@ func (p *TSimpleJSONProtocol) ParseBase64EncodedBody() ([]byte, TProtocolExcepti
 		return line, NewTProtocolExceptionFromOsError(err)
 	}
 	line2 := line[0 : len(line)-1]
+	if bytes.IndexByte(line2, '\\') >= 0 {
+		// JSON may write any character as an escape, and many write '/' so
+		v, ok := JsonUnquote(string(JSON_QUOTE) + string(line))
+		if !ok {
+			return nil, NewTProtocolException(INVALID_DATA, "Unable to parse as JSON string "+string(JSON_QUOTE)+string(line))
+		}
+		line2 = []byte(v)
+	}
 	l := len(line2)
 	output := make([]byte, base64.StdEncoding.DecodedLen(l))
 	n, err := base64.StdEncoding.Decode(output, line2)
-- 
2.43.0


From 04d2498e46cdf24b573cee738dbc0362de8c1f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:12 +0000
Subject: [PATCH 86/87] fix: enum values of zero became true as booleans

---
 lib/go/src/thrift/ttype.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/go/src/thrift/ttype.go b/lib/go/src/thrift/ttype.go
index f3e4c59..c73bc16 100644
--- a/lib/go/src/thrift/ttype.go
+++ b/lib/go/src/thrift/ttype.go
@@ -665,6 +665,8 @@ func (p TType) CoerceData(data interface{}) (interface{}, bool) {
 			return b != 0, true
 		case []byte:
 			return len(b) > 1 || (len(b) == 1 && b[0] != 0), true
+		case Enumer:
+			return b.Value() != 0, true
 		case Stringer:
 			v := b.String()
 			if v == "false" || v == "0" || len(v) == 0 {
-- 
2.43.0


From cd62244ecebf267e73231045c8955e3bcc4bfe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:05 +0000
Subject: [PATCH 87/87] fix: a non-blocking socket ignored its timeout when
 opening

---
 lib/go/src/thrift/tnonblocking_socket.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tnonblocking_socket.go b/lib/go/src/thrift/tnonblocking_socket.go
index 7968e91..f51b1c8 100644
--- a/lib/go/src/thrift/tnonblocking_socket.go
+++ b/lib/go/src/thrift/tnonblocking_socket.go
@@ -119,8 +119,12 @@ func (p *TNonblockingSocket) Open() error {
 		return NewTTransportException(NOT_OPEN, "Cannot open bad address.")
 	}
 
+	var timeout time.Duration
+	if p.nsecTimeout > 0 {
+		timeout = time.Duration(p.nsecTimeout)
+	}
 	var err error
-	if p.conn, err = net.Dial(p.addr.Network(), p.addr.String()); err != nil {
+	if p.conn, err = net.DialTimeout(p.addr.Network(), p.addr.String(), timeout); err != nil {
 		LOGGER.Print("Could not open socket", err.Error())
 		return NewTTransportException(NOT_OPEN, err.Error())
 	}
-- 
2.43.0

