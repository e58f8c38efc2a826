From 3ed20c43acb6b39f6ccf20a7b5a4438748ff1f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 01/53] fix: Go decoder panics on truncated variable-length
 integers

---
 decode.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/decode.go b/decode.go
index b9d58cf..3d5f69b 100644
--- a/decode.go
+++ b/decode.go
@@ -172,7 +172,7 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 	if len(b) > 1 && b[0] == Uint16Kind[0] {
 		var x uint16
 		var s uint
-		for i := 1; i < VarIntLen16+1; i++ {
+		for i := 1; i < VarIntLen16+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -193,7 +193,7 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 	if len(b) > 1 && b[0] == Uint32Kind[0] {
 		var x uint32
 		var s uint
-		for i := 1; i < VarIntLen32+1; i++ {
+		for i := 1; i < VarIntLen32+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -215,7 +215,7 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 	if len(b) > 1 && b[0] == Uint64Kind[0] {
 		var x uint64
 		var s uint
-		for i := 1; i < VarIntLen64+1; i++ {
+		for i := 1; i < VarIntLen64+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -238,7 +238,7 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 	if len(b) > 1 && b[0] == Int32Kind[0] {
 		var ux uint32
 		var s uint
-		for i := 1; i < VarIntLen32+1; i++ {
+		for i := 1; i < VarIntLen32+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -266,7 +266,7 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 	if len(b) > 1 && b[0] == Int64Kind[0] {
 		var ux uint64
 		var s uint
-		for i := 1; i < VarIntLen64+1; i++ {
+		for i := 1; i < VarIntLen64+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-- 
2.43.0


From 080f172eb4aae6f94f20d5d975de6970c1ae47ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 02/53] fix: Go decoder truncates integers that overflow the
 requested width

---
 decode.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/decode.go b/decode.go
index 3d5f69b..07a2545 100644
--- a/decode.go
+++ b/decode.go
@@ -176,8 +176,8 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen16 && cb > 1 {
-					return b, 0, InvalidUint32
+				if i == VarIntLen16 && cb > 3 {
+					return b, 0, InvalidUint16
 				}
 				// End of varint, add the last bits and advance the buffer
 				return b[i+1:], x | uint16(cb)<<s, nil
@@ -197,7 +197,7 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen32 && cb > 1 {
+				if i == VarIntLen32 && cb > 15 {
 					return b, 0, InvalidUint32
 				}
 				// End of varint, add the last bits and advance the buffer
@@ -220,7 +220,7 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
 				// Check for overflow
-				if i > VarIntLen64 && cb > 1 {
+				if i == VarIntLen64 && cb > 1 {
 					return b, 0, InvalidUint64
 				}
 				// End of varint, add the last bits and advance the buffer
@@ -242,7 +242,7 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen32 && cb > 1 {
+				if i == VarIntLen32 && cb > 15 {
 					return b, 0, InvalidInt32
 				}
 				// End of varint, add the last bits
@@ -270,7 +270,7 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen64 && cb > 1 {
+				if i == VarIntLen64 && cb > 1 {
 					return b, 0, InvalidInt64
 				}
 				// End of varint, add the last bits
-- 
2.43.0


From 7912595e2032834aaf27d2710cc1490af394633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 03/53] fix: Go decoder returns stale bytes after the payload
 when the scratch slice is longer

---
 decode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decode.go b/decode.go
index 07a2545..1c88a95 100644
--- a/decode.go
+++ b/decode.go
@@ -104,6 +104,7 @@ func decodeBytes(b, ret []byte) ([]byte, []byte, error) {
 					}
 				} else {
 					copy(ret[0:], b[:size])
+					ret = ret[:size]
 				}
 				return b[size:], ret, nil
 			}
-- 
2.43.0


From df67210a8c07917ebff2dca9a414c0455a521a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 04/53] fix: Go v2 decoder panics on truncated variable-length
 integers

---
 v2/decode.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/v2/decode.go b/v2/decode.go
index 5548906..191f016 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -46,6 +46,17 @@ var (
 	ErrInvalidFloat64 = errors.New("invalid float64 encoding")
 )
 
+// varIntComplete reports whether b starts with a variable-length integer that
+// ends within b and takes at most maxLen bytes.
+func varIntComplete(b []byte, maxLen int) bool {
+	for i := 0; i < maxLen && i < len(b); i++ {
+		if b[i] < continuation {
+			return true
+		}
+	}
+	return false
+}
+
 func decodeNil(b []byte) ([]byte, bool) {
 	if len(b) > 0 && b[0] == NilRawKind {
 		return b[1:], true
@@ -88,6 +99,9 @@ func decodeBytes(b []byte, ret []byte) ([]byte, []byte, error) {
 			size = int(cb)
 			offset = 3
 		} else {
+			if !varIntComplete(b[2:], VarIntLen32) {
+				return b, nil, ErrInvalidBytes
+			}
 			x := cb & (continuation - 1)
 			cb = uint32(b[3])
 			if cb < continuation {
@@ -176,6 +190,9 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 		if cb < continuation {
 			return b[2:], cb, nil
 		}
+		if !varIntComplete(b[1:], VarIntLen16) {
+			return b, 0, ErrInvalidUint16
+		}
 
 		x := cb & (continuation - 1)
 		cb = uint16(b[2])
@@ -198,6 +215,9 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 		if cb < continuation {
 			return b[2:], cb, nil
 		}
+		if !varIntComplete(b[1:], VarIntLen32) {
+			return b, 0, ErrInvalidUint32
+		}
 
 		x := cb & (continuation - 1)
 		cb = uint32(b[2])
@@ -232,6 +252,9 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 		if cb < continuation {
 			return b[2:], cb, nil
 		}
+		if !varIntComplete(b[1:], VarIntLen64) {
+			return b, 0, ErrInvalidUint64
+		}
 
 		x := cb & (continuation - 1)
 		cb = uint64(b[2])
@@ -300,6 +323,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 			}
 			return b[2:], x, nil
 		}
+		if !varIntComplete(b[1:], VarIntLen32) {
+			return b, 0, ErrInvalidInt32
+		}
 
 		x := cb & (continuation - 1)
 		cb = uint32(b[2])
@@ -354,6 +380,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 			}
 			return b[2:], x, nil
 		}
+		if !varIntComplete(b[1:], VarIntLen64) {
+			return b, 0, ErrInvalidInt64
+		}
 
 		x := cb & (continuation - 1)
 		cb = uint64(b[2])
-- 
2.43.0


From c2ecaa1b386cfd4e2ba5f03c67cbe841a54df307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 05/53] fix: Go v2 decoder truncates integers that overflow the
 requested width

---
 v2/decode.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/v2/decode.go b/v2/decode.go
index 191f016..e5586ca 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -122,9 +122,11 @@ func decodeBytes(b []byte, ret []byte) ([]byte, []byte, error) {
 					} else {
 						x |= (cb & (continuation - 1)) << 21
 						cb = uint32(b[6])
-						if cb < continuation {
+						if cb <= 15 {
 							size = int(x | (cb << 28))
 							offset = 7
+						} else {
+							return b, nil, ErrInvalidBytes
 						}
 					}
 				}
@@ -202,7 +204,7 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 
 		x |= (cb & (continuation - 1)) << 7
 		cb = uint16(b[3])
-		if cb < continuation {
+		if cb <= 3 {
 			return b[4:], x | (cb << 14), nil
 		}
 	}
@@ -239,7 +241,7 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 
 		x |= (cb & (continuation - 1)) << 21
 		cb = uint32(b[5])
-		if cb < continuation {
+		if cb <= 15 {
 			return b[6:], x | (cb << 28), nil
 		}
 	}
@@ -306,7 +308,7 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 
 		x |= (cb & (continuation - 1)) << 56
 		cb = uint64(b[10])
-		if cb < continuation {
+		if cb <= 1 {
 			return b[11:], x | (cb << 63), nil
 		}
 	}
@@ -359,7 +361,7 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 
 		x |= (cb & (continuation - 1)) << 21
 		cb = uint32(b[5])
-		if cb < continuation {
+		if cb <= 15 {
 			x |= cb << 28
 			if x&1 != 0 {
 				return b[6:], -(int32(x>>1) + 1), nil
@@ -466,7 +468,7 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 
 		x |= (cb & (continuation - 1)) << 56
 		cb = uint64(b[10])
-		if cb < continuation {
+		if cb <= 1 {
 			x |= cb << 63
 			if x&1 != 0 {
 				return b[11:], -(int64(x>>1) + 1), nil
-- 
2.43.0


From 2fcd3f0db2880ae0c38e95fd9b10d39511ec6e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 06/53] fix: Go v2 encodeBytes drops a length byte for values
 of 256 MiB and more

---
 v2/encode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v2/encode.go b/v2/encode.go
index 8422540..0a7b355 100644
--- a/v2/encode.go
+++ b/v2/encode.go
@@ -232,6 +232,7 @@ func encodeBytes(b *Buffer, value []byte) {
 					castValue >>= 7
 					if castValue < continuation {
 						b.b[offset] = byte(castValue)
+						offset++
 					} else {
 						b.b[offset] = byte(castValue&(continuation-1)) | continuation
 						offset++
-- 
2.43.0


From db3fbc88d5c03e29316487328549d07ffb450547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 07/53] fix: Go v2 buffers wrapped around a slice shorter than
 its capacity fail on use

---
 v2/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v2/buffer.go b/v2/buffer.go
index 1c85560..d20d46c 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -41,7 +41,7 @@ func NewBufferSize(size int) *Buffer {
 
 func NewBufferFromBytes(b []byte) *Buffer {
 	return &Buffer{
-		b:      b,
+		b:      b[:cap(b)],
 		offset: 0,
 	}
 }
-- 
2.43.0


From 134de45135a7f972477fb0aed982487024fadebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 08/53] fix: Rust decoder consumes input when an array, map or
 error is not next

---
 decoder.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index 43624e9..16872be 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -88,7 +88,12 @@ where
     }
 
     fn decode_array(&mut self, val_kind: Kind) -> Result<usize, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidArray)?;
+        if kind != Kind::Array as u8 {
+            self.set_position(start);
+            return Err(DecodingError::InvalidArray);
+        }
         let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidArray)?;
         if kind == Kind::Array as u8 && val_kind as u8 == defined_val_kind {
             return match self.decode_u32() {
@@ -96,12 +101,17 @@ where
                 Ok(val) => Ok(val as usize),
             };
         }
-        self.set_position(self.position() - 1);
+        self.set_position(start);
         Err(DecodingError::InvalidU32)
     }
 
     fn decode_map(&mut self, key_kind: Kind, val_kind: Kind) -> Result<usize, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
+        if kind != Kind::Map as u8 {
+            self.set_position(start);
+            return Err(DecodingError::InvalidMap);
+        }
         let defined_key_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
         let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
         if kind == Kind::Map as u8
@@ -113,7 +123,7 @@ where
                 Ok(val) => Ok(val as usize),
             };
         }
-        self.set_position(self.position() - 1);
+        self.set_position(start);
         Err(DecodingError::InvalidMap)
     }
 
@@ -151,7 +161,12 @@ where
     }
 
     fn decode_error(&mut self) -> Result<Box<dyn Error>, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
+        if kind != Kind::Error as u8 {
+            self.set_position(start);
+            return Err(DecodingError::InvalidError);
+        }
         let nested_kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
         if kind == Kind::Error as u8 && nested_kind == Kind::String as u8 {
             let size = self.decode_u32()? as usize;
@@ -165,7 +180,7 @@ where
                 .ok_or(DecodingError::InvalidError)?;
             return Ok(Box::<dyn Error>::from(result.to_owned()));
         }
-        self.set_position(self.position() - 2);
+        self.set_position(start);
         Err(DecodingError::InvalidError)
     }
 
-- 
2.43.0


From 92bec0d1037c6547a8c7a5e02ce0d9961d2997e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 09/53] fix: Rust decoder reports the error of another type for
 arrays, u16 and u64

---
 decoder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index 16872be..31f273a 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -102,7 +102,7 @@ where
             };
         }
         self.set_position(start);
-        Err(DecodingError::InvalidU32)
+        Err(DecodingError::InvalidArray)
     }
 
     fn decode_map(&mut self, key_kind: Kind, val_kind: Kind) -> Result<usize, DecodingError> {
@@ -219,7 +219,7 @@ where
             }
         }
         self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU32)
+        Err(DecodingError::InvalidU16)
     }
 
     fn decode_u32(&mut self) -> Result<u32, DecodingError> {
@@ -257,7 +257,7 @@ where
             }
         }
         self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU32)
+        Err(DecodingError::InvalidU64)
     }
 
     fn decode_i32(&mut self) -> Result<i32, DecodingError> {
-- 
2.43.0


From 44599c672655292e4a46170c031a5a468804b755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 10/53] fix: Rust decoder truncates integers that overflow the
 requested width

---
 decoder.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/decoder.rs b/decoder.rs
index 31f273a..53d1cf6 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -211,6 +211,9 @@ where
 
             for _ in 0..VARINT_LEN16 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU16)?;
+                if s == 14 && byte > 3 {
+                    break;
+                }
                 if byte < CONTINUATION {
                     return Ok(x | ((byte as u16) << s));
                 }
@@ -230,6 +233,9 @@ where
 
             for _ in 0..VARINT_LEN32 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU32)?;
+                if s == 28 && byte > 15 {
+                    break;
+                }
                 if byte < CONTINUATION {
                     return Ok(x | ((byte as u32) << s));
                 }
@@ -249,6 +255,9 @@ where
 
             for _ in 0..VARINT_LEN64 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU64)?;
+                if s == 63 && byte > 1 {
+                    break;
+                }
                 if byte < CONTINUATION {
                     return Ok(x | ((byte as u64) << s));
                 }
@@ -268,6 +277,9 @@ where
 
             for _ in 0..VARINT_LEN32 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidI32)?;
+                if s == 28 && byte > 15 {
+                    break;
+                }
                 if byte < CONTINUATION {
                     ux |= (byte as u32) << s;
                     let mut x = (ux >> 1) as i32;
@@ -292,6 +304,9 @@ where
 
             for _ in 0..VARINT_LEN64 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidI64)?;
+                if s == 63 && byte > 1 {
+                    break;
+                }
                 if byte < CONTINUATION {
                     ux |= (byte as u64) << s;
                     let mut x = (ux >> 1) as i64;
-- 
2.43.0


From 460f9848f0980284a3f57aab61982aafbc5a7542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 11/53] fix: Rust decoder allocates whatever length the input
 claims

---
 decoder.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/decoder.rs b/decoder.rs
index 53d1cf6..6713dde 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -73,6 +73,12 @@ pub trait Decoder {
     fn decode_f64(&mut self) -> Result<f64, DecodingError>;
 }
 
+/// The number of bytes of the input that have not been read yet.
+fn remaining<T: AsRef<[u8]>>(cursor: &Cursor<T>) -> usize {
+    let len = cursor.get_ref().as_ref().len();
+    len.saturating_sub(cursor.position() as usize)
+}
+
 impl<T> Decoder for Cursor<T>
 where
     T: AsRef<[u8]>,
@@ -131,6 +137,9 @@ where
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidBytes)?;
         if kind == Kind::Bytes as u8 {
             let size = self.decode_u32()? as usize;
+            if size > remaining(self) {
+                return Err(DecodingError::InvalidBytes);
+            }
             let mut buf = vec![0u8; size];
             self.read_exact(&mut buf)
                 .ok()
@@ -146,6 +155,9 @@ where
 
         if kind == Kind::String as u8 {
             let size = self.decode_u32()? as usize;
+            if size > remaining(self) {
+                return Err(DecodingError::InvalidString);
+            }
             let mut str_buf = vec![0u8; size];
             self.read_exact(&mut str_buf)
                 .ok()
@@ -170,6 +182,9 @@ where
         let nested_kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
         if kind == Kind::Error as u8 && nested_kind == Kind::String as u8 {
             let size = self.decode_u32()? as usize;
+            if size > remaining(self) {
+                return Err(DecodingError::InvalidError);
+            }
             let mut str_buf = vec![0u8; size];
             self.read_exact(&mut str_buf)
                 .ok()
-- 
2.43.0


From 5639c8e4df18211984c7754acc653926277c6b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 12/53] fix: C polyglot_decode_none dereferences a null decoder
 and reports no status

---
 c_bindings/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c_bindings/decoder.rs b/c_bindings/decoder.rs
index d518ba4..d645514 100644
--- a/c_bindings/decoder.rs
+++ b/c_bindings/decoder.rs
@@ -70,9 +70,13 @@ pub extern "C" fn polyglot_decode_none(status: *mut Status, decoder: *mut Decode
         unsafe {
             *status = Status::NullPointer;
         }
+        return false;
     }
 
-    unsafe { (*decoder).cursor.decode_none() }
+    unsafe {
+        *status = Status::Pass;
+        (*decoder).cursor.decode_none()
+    }
 }
 
 #[no_mangle]
-- 
2.43.0


From f1548fd92c8e5e00f4345a8e9a06df1ee3a20f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 13/53] fix: C polyglot_encoder_size reports no status on
 success

---
 c_bindings/encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c_bindings/encoder.rs b/c_bindings/encoder.rs
index 556da37..b7c073e 100644
--- a/c_bindings/encoder.rs
+++ b/c_bindings/encoder.rs
@@ -54,6 +54,7 @@ pub extern "C" fn polyglot_encoder_size(status: *mut Status, encoder: *mut Encod
     }
 
     unsafe {
+        *status = Status::Pass;
         (*encoder).cursor.get_ref().len() as u32
     }
 }
-- 
2.43.0


From 415a35e544bd804c9acf16e79b3a78efc82542b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 14/53] fix: C encoders read a null string instead of reporting
 it

---
 c_bindings/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c_bindings/encoder.rs b/c_bindings/encoder.rs
index b7c073e..ae88b38 100644
--- a/c_bindings/encoder.rs
+++ b/c_bindings/encoder.rs
@@ -194,7 +194,7 @@ pub extern "C" fn polyglot_encode_bytes(status: *mut Status, encoder: *mut Encod
 pub extern "C" fn polyglot_encode_string(status: *mut Status, encoder: *mut Encoder, string_pointer: *const c_char) {
     Status::check_not_null(status);
 
-    if encoder.is_null() {
+    if encoder.is_null() || string_pointer.is_null() {
         unsafe {
             *status = Status::NullPointer;
         }
@@ -224,7 +224,7 @@ pub extern "C" fn polyglot_encode_string(status: *mut Status, encoder: *mut Enco
 pub extern "C" fn polyglot_encode_error(status: *mut Status, encoder: *mut Encoder, string_pointer: *mut c_char) {
     Status::check_not_null(status);
 
-    if encoder.is_null() {
+    if encoder.is_null() || string_pointer.is_null() {
         unsafe {
             *status = Status::NullPointer;
         }
-- 
2.43.0


From 11d7ef21efe843bfcd9486d5aa0bdd106176dee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 15/53] fix: C polyglot_free_decode_bytes frees with the wrong
 layout and frees the dangling data of empty values

---
 c_bindings/decoder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/c_bindings/decoder.rs b/c_bindings/decoder.rs
index d645514..5dee5f3 100644
--- a/c_bindings/decoder.rs
+++ b/c_bindings/decoder.rs
@@ -175,8 +175,7 @@ pub extern "C" fn polyglot_free_decode_bytes(buffer: *mut Buffer) {
         unsafe {
             let boxed_value =
                 std::slice::from_raw_parts_mut((*buffer).data, (*buffer).length as usize);
-            let value = boxed_value.as_mut_ptr();
-            drop(Box::from_raw(value));
+            drop(Box::from_raw(boxed_value as *mut [u8]));
             drop(Box::from_raw(buffer));
         }
     }
-- 
2.43.0


From 25208a0ef541a43f4cbfec7d293948a6d8a7797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 16/53] fix: TypeScript encoder buffer does not grow enough for
 large values or from an empty or partial buffer

---
 encoder.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/encoder.ts b/encoder.ts
index fca1760..74a5637 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -41,7 +41,9 @@ export class Encoder {
     if (this.#buf.length - this.#pos < minLen) {
       const oldBuf = this.#buf;
 
-      this.#buf = new Uint8Array(this.#buf.buffer.byteLength * 2);
+      this.#buf = new Uint8Array(
+        Math.max(oldBuf.length * 2, this.#pos + minLen),
+      );
       this.#buf.set(oldBuf);
     }
   }
-- 
2.43.0


From 6b1a2b224429d4d9e0f74167fde2770fedb3d43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 17/53] fix: TypeScript encoder reserves too little room for
 integers and loses their last bytes

---
 encoder.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/encoder.ts b/encoder.ts
index 74a5637..f2284a8 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -54,7 +54,7 @@ export class Encoder {
 
   private varint(value: number, kind: Kind, maxBytes: number, signed = false) {
     let val = value;
-    this.resize(maxBytes);
+    this.resize(maxBytes + 1);
     this.#buf[this.#pos] = kind;
     this.#pos += 1;
 
@@ -77,7 +77,7 @@ export class Encoder {
     signed = false,
   ) {
     let val = BigInt(value);
-    this.resize(maxBytes);
+    this.resize(maxBytes + 1);
     this.#buf[this.#pos] = kind;
     this.#pos += 1;
 
@@ -138,7 +138,7 @@ export class Encoder {
   }
 
   uint64(value: bigint) {
-    return this.varintBig(value, Kind.Uint64, 9);
+    return this.varintBig(value, Kind.Uint64, 10);
   }
 
   int32(value: number) {
@@ -146,7 +146,7 @@ export class Encoder {
   }
 
   int64(value: bigint) {
-    return this.varintBig(value, Kind.Int64, 9, true);
+    return this.varintBig(value, Kind.Int64, 10, true);
   }
 
   float32(value: number) {
-- 
2.43.0


From 3eae9b521a05d8f9623fd4b14f276ea60d7c3ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 18/53] fix: TypeScript encoder returns the wrong bytes when
 given a view into a larger buffer

---
 encoder.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoder.ts b/encoder.ts
index f2284a8..2d2e332 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -49,7 +49,7 @@ export class Encoder {
   }
 
   get bytes() {
-    return new Uint8Array(this.#buf.buffer, 0, this.#pos);
+    return new Uint8Array(this.#buf.buffer, this.#buf.byteOffset, this.#pos);
   }
 
   private varint(value: number, kind: Kind, maxBytes: number, signed = false) {
-- 
2.43.0


From 22fa9f556015b85110a580868bb6da054faa21ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 19/53] fix: TypeScript decoder masks the wrong bits of
 multi-byte uint16 values

---
 decoder.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.ts b/decoder.ts
index ccc108d..f62a36f 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -225,7 +225,7 @@ export class Decoder {
       if (b < CONTINUATION) {
         return (num | (b << shift)) >>> 0;
       }
-      num |= b & ((CONTINUATION - 1) << shift);
+      num |= (b & (CONTINUATION - 1)) << shift;
       shift += 7;
     }
     return num;
-- 
2.43.0


From 84ffaa473d6eab5c649556812599070e8eaf87e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 20/53] fix: TypeScript decoder accepts truncated values and
 over-long integers

---
 decoder.ts | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index f62a36f..6ff9f6a 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -153,6 +153,12 @@ export class Decoder {
     return val;
   }
 
+  private require(size: number, Err: new () => Error) {
+    if (this.length < size) {
+      throw new Err();
+    }
+  }
+
   private validateKind(expected: Kind, Err: new () => Error) {
     if ((this.peek() as Kind) !== expected) {
       throw new Err();
@@ -164,10 +170,15 @@ export class Decoder {
     return this.buf.length - this.#pos;
   }
 
-  private varint(maxLen: number, signed = false): bigint {
+  private varint(
+    maxLen: number,
+    Err: new () => Error,
+    signed = false,
+  ): bigint {
     let num = 0n;
     let shift = 0n;
     for (let i = 1; i < maxLen + 1; i += 1) {
+      this.require(1, Err);
       const b = this.pop();
       if (b < BigInt(CONTINUATION)) {
         num += BigInt(b) << shift;
@@ -180,7 +191,7 @@ export class Decoder {
       num += BigInt(b & (CONTINUATION - 1)) << shift;
       shift += 7n;
     }
-    return num;
+    throw new Err();
   }
 
   null(): boolean {
@@ -201,11 +212,13 @@ export class Decoder {
 
   boolean(): boolean {
     this.validateKind(Kind.Boolean, InvalidBooleanError);
+    this.require(1, InvalidBooleanError);
     return this.pop() === BOOLEAN_TRUE;
   }
 
   uint8(): number {
     this.validateKind(Kind.Uint8, InvalidUint8Error);
+    this.require(1, InvalidUint8Error);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -221,6 +234,7 @@ export class Decoder {
     let num = 0;
     let shift = 0;
     for (let i = 1; i < MAXLEN16 + 1; i += 1) {
+      this.require(1, InvalidUint16Error);
       const b = this.pop();
       if (b < CONTINUATION) {
         return (num | (b << shift)) >>> 0;
@@ -228,31 +242,32 @@ export class Decoder {
       num |= (b & (CONTINUATION - 1)) << shift;
       shift += 7;
     }
-    return num;
+    throw new InvalidUint16Error();
   }
 
   uint32(): number {
     this.validateKind(Kind.Uint32, InvalidUint32Error);
-    return Number(this.varint(MAXLEN32));
+    return Number(this.varint(MAXLEN32, InvalidUint32Error));
   }
 
   uint64(): bigint {
     this.validateKind(Kind.Uint64, InvalidUint64Error);
-    return this.varint(MAXLEN64);
+    return this.varint(MAXLEN64, InvalidUint64Error);
   }
 
   int32(): number {
     this.validateKind(Kind.Int32, InvalidInt32Error);
-    return Number(this.varint(MAXLEN32, true));
+    return Number(this.varint(MAXLEN32, InvalidInt32Error, true));
   }
 
   int64(): bigint {
     this.validateKind(Kind.Int64, InvalidInt64Error);
-    return this.varint(MAXLEN64, true);
+    return this.varint(MAXLEN64, InvalidInt64Error, true);
   }
 
   float32(): number {
     this.validateKind(Kind.Float32, InvalidFloat32Error);
+    this.require(4, InvalidFloat32Error);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -265,6 +280,7 @@ export class Decoder {
 
   float64(): number {
     this.validateKind(Kind.Float64, InvalidFloat64Error);
+    this.require(8, InvalidFloat64Error);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -291,6 +307,7 @@ export class Decoder {
   uint8Array(): Uint8Array {
     this.validateKind(Kind.Uint8Array, InvalidUint8ArrayError);
     const size = this.uint32();
+    this.require(size, InvalidUint8ArrayError);
     const value = this.buf.slice(this.#pos, this.#pos + size);
     this.#pos += size;
     return value;
@@ -299,6 +316,7 @@ export class Decoder {
   string(): string {
     this.validateKind(Kind.String, InvalidStringError);
     const size = this.uint32();
+    this.require(size, InvalidStringError);
     const value = new TextDecoder().decode(
       this.buf.slice(this.#pos, this.#pos + size),
     );
@@ -314,6 +332,7 @@ export class Decoder {
     }
 
     const size = this.uint32();
+    this.require(size, InvalidErrorError);
     const value = new Error(
       new TextDecoder().decode(this.buf.slice(this.#pos, this.#pos + size)),
     );
-- 
2.43.0


From dea0c46f2b186cab6363091bce0299cf0e5b12fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 21/53] fix: TypeScript decoder accepts integers that overflow
 the requested width

---
 decoder.ts | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index 6ff9f6a..15df758 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -23,6 +23,10 @@ const CONTINUATION = 0x80;
 const MAXLEN16 = 3;
 const MAXLEN32 = 5;
 const MAXLEN64 = 10;
+// The largest last byte of an integer of the maximum length.
+const MAXLAST16 = 0x03;
+const MAXLAST32 = 0x0f;
+const MAXLAST64 = 0x01;
 
 export class InvalidBooleanError extends Error {
   constructor() {
@@ -172,6 +176,7 @@ export class Decoder {
 
   private varint(
     maxLen: number,
+    maxLast: number,
     Err: new () => Error,
     signed = false,
   ): bigint {
@@ -180,6 +185,9 @@ export class Decoder {
     for (let i = 1; i < maxLen + 1; i += 1) {
       this.require(1, Err);
       const b = this.pop();
+      if (i === maxLen && b > maxLast) {
+        throw new Err();
+      }
       if (b < BigInt(CONTINUATION)) {
         num += BigInt(b) << shift;
         if (signed) {
@@ -236,6 +244,9 @@ export class Decoder {
     for (let i = 1; i < MAXLEN16 + 1; i += 1) {
       this.require(1, InvalidUint16Error);
       const b = this.pop();
+      if (i === MAXLEN16 && b > MAXLAST16) {
+        throw new InvalidUint16Error();
+      }
       if (b < CONTINUATION) {
         return (num | (b << shift)) >>> 0;
       }
@@ -247,22 +258,22 @@ export class Decoder {
 
   uint32(): number {
     this.validateKind(Kind.Uint32, InvalidUint32Error);
-    return Number(this.varint(MAXLEN32, InvalidUint32Error));
+    return Number(this.varint(MAXLEN32, MAXLAST32, InvalidUint32Error));
   }
 
   uint64(): bigint {
     this.validateKind(Kind.Uint64, InvalidUint64Error);
-    return this.varint(MAXLEN64, InvalidUint64Error);
+    return this.varint(MAXLEN64, MAXLAST64, InvalidUint64Error);
   }
 
   int32(): number {
     this.validateKind(Kind.Int32, InvalidInt32Error);
-    return Number(this.varint(MAXLEN32, InvalidInt32Error, true));
+    return Number(this.varint(MAXLEN32, MAXLAST32, InvalidInt32Error, true));
   }
 
   int64(): bigint {
     this.validateKind(Kind.Int64, InvalidInt64Error);
-    return this.varint(MAXLEN64, InvalidInt64Error, true);
+    return this.varint(MAXLEN64, MAXLAST64, InvalidInt64Error, true);
   }
 
   float32(): number {
-- 
2.43.0


From 6ef526299071c32a4bed7d1775517032e0f031bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 22/53] fix: TypeScript decoder consumes input when an array,
 map or error is not next

---
 decoder.ts | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index 15df758..c7943ac 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -163,8 +163,10 @@ export class Decoder {
     }
   }
 
-  private validateKind(expected: Kind, Err: new () => Error) {
+  private validateKind(expected: Kind, Err: new () => Error, depth = 0) {
     if ((this.peek() as Kind) !== expected) {
+      // Leave the kinds that were already matched in place.
+      this.#pos -= depth;
       throw new Err();
     }
     this.#pos += 1;
@@ -304,14 +306,14 @@ export class Decoder {
 
   array(valueKind: Kind): number {
     this.validateKind(Kind.Array, InvalidArrayError);
-    this.validateKind(valueKind, InvalidArrayError);
+    this.validateKind(valueKind, InvalidArrayError, 1);
     return this.uint32();
   }
 
   map(keyKind: Kind, valueKind: Kind): number {
     this.validateKind(Kind.Map, InvalidMapError);
-    this.validateKind(keyKind, InvalidMapError);
-    this.validateKind(valueKind, InvalidMapError);
+    this.validateKind(keyKind, InvalidMapError, 1);
+    this.validateKind(valueKind, InvalidMapError, 2);
     return this.uint32();
   }
 
@@ -337,10 +339,7 @@ export class Decoder {
 
   error(): Error {
     this.validateKind(Kind.Error, InvalidErrorError);
-    const nestedType = this.pop() as Kind;
-    if (nestedType !== Kind.String) {
-      throw new InvalidErrorError();
-    }
+    this.validateKind(Kind.String, InvalidErrorError, 1);
 
     const size = this.uint32();
     this.require(size, InvalidErrorError);
-- 
2.43.0


From bf5bfefea0bcfb7ca91a98434785a524a0cf483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 23/53] fix: TypeScript decoder drops a leading byte order mark
 from strings and errors

---
 decoder.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index c7943ac..114a6ca 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -330,7 +330,7 @@ export class Decoder {
     this.validateKind(Kind.String, InvalidStringError);
     const size = this.uint32();
     this.require(size, InvalidStringError);
-    const value = new TextDecoder().decode(
+    const value = new TextDecoder("utf-8", { ignoreBOM: true }).decode(
       this.buf.slice(this.#pos, this.#pos + size),
     );
     this.#pos += size;
@@ -344,7 +344,7 @@ export class Decoder {
     const size = this.uint32();
     this.require(size, InvalidErrorError);
     const value = new Error(
-      new TextDecoder().decode(this.buf.slice(this.#pos, this.#pos + size)),
+      new TextDecoder("utf-8", { ignoreBOM: true }).decode(this.buf.slice(this.#pos, this.#pos + size)),
     );
     this.#pos += size;
     return value;
-- 
2.43.0


From cd132c9793a225567e0bbbbc3a42ddeb66f97fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 24/53] fix: TypeScript decoder shares the memory of Node.js
 Buffer inputs with decoded bytes

---
 decoder.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index 114a6ca..a4f4af7 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -321,7 +321,10 @@ export class Decoder {
     this.validateKind(Kind.Uint8Array, InvalidUint8ArrayError);
     const size = this.uint32();
     this.require(size, InvalidUint8ArrayError);
-    const value = this.buf.slice(this.#pos, this.#pos + size);
+    // Not slice, which shares the memory of the input if that is a Node.js Buffer.
+    const value = new Uint8Array(
+      this.buf.subarray(this.#pos, this.#pos + size),
+    );
     this.#pos += size;
     return value;
   }
@@ -344,7 +347,9 @@ export class Decoder {
     const size = this.uint32();
     this.require(size, InvalidErrorError);
     const value = new Error(
-      new TextDecoder("utf-8", { ignoreBOM: true }).decode(this.buf.slice(this.#pos, this.#pos + size)),
+      new TextDecoder("utf-8", { ignoreBOM: true }).decode(
+        this.buf.slice(this.#pos, this.#pos + size),
+      ),
     );
     this.#pos += size;
     return value;
-- 
2.43.0


From b7b46e6527608eee6b450606f85ee21ddef319d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 25/53] fix: TypeScript encoder reserves too little room for
 the length of large strings, bytes and errors

---
 encoder.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/encoder.ts b/encoder.ts
index 2d2e332..067e8c8 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -195,7 +195,7 @@ export class Encoder {
   }
 
   uint8Array(value: Uint8Array) {
-    this.resize(5 + value.length);
+    this.resize(7 + value.length);
     this.#buf[this.#pos] = Kind.Uint8Array;
     this.#pos += 1;
     this.uint32(value.length);
@@ -207,7 +207,7 @@ export class Encoder {
   string(value: string) {
     const v = new TextEncoder().encode(value);
 
-    this.resize(5 + v.length);
+    this.resize(7 + v.length);
     this.#buf[this.#pos] = Kind.String;
     this.#pos += 1;
     this.uint32(v.length);
@@ -219,7 +219,7 @@ export class Encoder {
   error(value: Error) {
     const v = new TextEncoder().encode(value.message);
 
-    this.resize(6 + v.length);
+    this.resize(8 + v.length);
     this.#buf[this.#pos] = Kind.Error;
     this.#buf[this.#pos + 1] = Kind.String;
     this.#pos += 2;
-- 
2.43.0


From d668e1a88cff8caec3d451407af4042da838ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 26/53] fix: generated code contains the line break that ends
 the version file

---
 v2/version/version.go | 3 ++-
 version/version.go    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/v2/version/version.go b/v2/version/version.go
index f725f09..d67d143 100644
--- a/v2/version/version.go
+++ b/v2/version/version.go
@@ -18,11 +18,12 @@ package version
 
 import (
 	_ "embed"
+	"strings"
 )
 
 //go:embed current_version
 var currentVersion string
 
 func Version() string {
-	return currentVersion
+	return strings.TrimSpace(currentVersion)
 }
diff --git a/version/version.go b/version/version.go
index f725f09..d67d143 100644
--- a/version/version.go
+++ b/version/version.go
@@ -18,11 +18,12 @@ package version
 
 import (
 	_ "embed"
+	"strings"
 )
 
 //go:embed current_version
 var currentVersion string
 
 func Version() string {
-	return currentVersion
+	return strings.TrimSpace(currentVersion)
 }
-- 
2.43.0


From 904633d1e06b610fc0d0fbff9a443de9f690288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 27/53] fix: generated Go code for repeated enums does not
 compile

---
 generator/golang/structs.go                | 2 +-
 generator/golang/templates/decode.templ    | 4 ++++
 generator/golang/templates/encode.templ    | 4 ++++
 v2/generator/golang/structs.go             | 2 +-
 v2/generator/golang/templates/decode.templ | 4 ++++
 v2/generator/golang/templates/encode.templ | 4 ++++
 6 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index b5bf4e0..99472be 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -114,7 +114,7 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 			case protoreflect.Optional, protoreflect.Required:
 				return utils.CamelCase(string(field.Enum().FullName()))
 			case protoreflect.Repeated:
-				return utils.CamelCase(utils.AppendString(Slice, string(field.Enum().FullName())))
+				return utils.AppendString(Slice, utils.CamelCase(string(field.Enum().FullName())))
 			default:
 				panic(errUnknownCardinality)
 			}
diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index e701386..8ee3b1b 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -56,6 +56,10 @@ var err error
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+    var value uint32
+    value, err = d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}(value)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/generator/golang/templates/encode.templ b/generator/golang/templates/encode.templ
index eb7a696..84146b2 100644
--- a/generator/golang/templates/encode.templ
+++ b/generator/golang/templates/encode.templ
@@ -29,7 +29,11 @@ func (x *{{ CamelCase .FullName }}) Encode (b *polyglot.Buffer) {
         {{else -}}
         polyglot.Encoder(b).Slice(uint32(len(x.{{ CamelCaseName $field.Name }})), {{ GetKindLUT $field.Kind }})
         for _, v := range x.{{ CamelCaseName $field.Name }} {
+            {{ if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            polyglot.Encoder(b){{$encoder}}(uint32(v))
+            {{ else -}}
             polyglot.Encoder(b){{$encoder}}(v)
+            {{ end -}}
         }
         {{end -}}
     {{end -}}
diff --git a/v2/generator/golang/structs.go b/v2/generator/golang/structs.go
index e4473c2..29f998d 100644
--- a/v2/generator/golang/structs.go
+++ b/v2/generator/golang/structs.go
@@ -114,7 +114,7 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 			case protoreflect.Optional, protoreflect.Required:
 				return utils.CamelCase(string(field.Enum().FullName()))
 			case protoreflect.Repeated:
-				return utils.CamelCase(utils.AppendString(Slice, string(field.Enum().FullName())))
+				return utils.AppendString(Slice, utils.CamelCase(string(field.Enum().FullName())))
 			default:
 				panic(errUnknownCardinality)
 			}
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index d953142..f705b25 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -54,6 +54,10 @@ var err error
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+    var value uint32
+    value, err = d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}(value)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/v2/generator/golang/templates/encode.templ b/v2/generator/golang/templates/encode.templ
index eb7a696..84146b2 100644
--- a/v2/generator/golang/templates/encode.templ
+++ b/v2/generator/golang/templates/encode.templ
@@ -29,7 +29,11 @@ func (x *{{ CamelCase .FullName }}) Encode (b *polyglot.Buffer) {
         {{else -}}
         polyglot.Encoder(b).Slice(uint32(len(x.{{ CamelCaseName $field.Name }})), {{ GetKindLUT $field.Kind }})
         for _, v := range x.{{ CamelCaseName $field.Name }} {
+            {{ if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            polyglot.Encoder(b){{$encoder}}(uint32(v))
+            {{ else -}}
             polyglot.Encoder(b){{$encoder}}(v)
+            {{ end -}}
         }
         {{end -}}
     {{end -}}
-- 
2.43.0


From e309ba9cf813445da26641a56807edab778c771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 28/53] fix: generated Go code for repeated bytes and maps of
 bytes does not compile

---
 generator/golang/templates/decode.templ       | 2 ++
 generator/golang/templates/decodeMap.templ    | 2 ++
 v2/generator/golang/templates/decode.templ    | 2 ++
 v2/generator/golang/templates/decodeMap.templ | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index 8ee3b1b..ee31b18 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -60,6 +60,8 @@ var err error
     var value uint32
     value, err = d{{ $decoder }}()
     x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}(value)
+    {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+    x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/generator/golang/templates/decodeMap.templ b/generator/golang/templates/decodeMap.templ
index 93bff31..db58116 100644
--- a/generator/golang/templates/decodeMap.templ
+++ b/generator/golang/templates/decodeMap.templ
@@ -36,6 +36,8 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.Decoder, size uint32) err
             {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
                 {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
                 v = {{ FindValue .MapValue }}({{ CamelCaseName .MapValue.Name }}Temp)
+            {{else if eq .MapValue.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+                v, err = d{{$valDecoder}}(nil)
             {{else -}}
                 v, err = d{{$valDecoder}}()
             {{end -}}
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index f705b25..bd0f393 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -58,6 +58,8 @@ var err error
     var value uint32
     value, err = d{{ $decoder }}()
     x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}(value)
+    {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+    x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/v2/generator/golang/templates/decodeMap.templ b/v2/generator/golang/templates/decodeMap.templ
index 9092a07..485e6b9 100644
--- a/v2/generator/golang/templates/decodeMap.templ
+++ b/v2/generator/golang/templates/decodeMap.templ
@@ -36,6 +36,8 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.BufferDecoder, size uint3
             {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
                 {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
                 v = {{ FindValue .MapValue }}({{ CamelCaseName .MapValue.Name }}Temp)
+            {{else if eq .MapValue.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+                v, err = d{{$valDecoder}}(nil)
             {{else -}}
                 v, err = d{{$valDecoder}}()
             {{end -}}
-- 
2.43.0


From 69da25e2381162784b299d93c9da2e7cacc51170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 29/53] fix: generated Go code for messages with only maps does
 not compile

---
 generator/golang/templates/decode.templ    | 3 ++-
 v2/generator/golang/templates/decode.templ | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index ee31b18..e70487d 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -76,7 +76,8 @@ var err error
         {{ $keyKind := GetKind $field.MapKey.Kind -}}
         {{ $valKind := GetKind $field.MapValue.Kind -}}
 
-        {{ CamelCaseName $field.Name }}Size, err := d.Map({{ $keyKind }}, {{ $valKind }})
+        var {{ CamelCaseName $field.Name }}Size uint32
+        {{ CamelCaseName $field.Name }}Size, err = d.Map({{ $keyKind }}, {{ $valKind }})
         if err != nil {
         return err
         }
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index bd0f393..6df6e0b 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -74,7 +74,8 @@ var err error
         {{ $keyKind := GetKind $field.MapKey.Kind -}}
         {{ $valKind := GetKind $field.MapValue.Kind -}}
 
-        {{ CamelCaseName $field.Name }}Size, err := d.Map({{ $keyKind }}, {{ $valKind }})
+        var {{ CamelCaseName $field.Name }}Size uint32
+        {{ CamelCaseName $field.Name }}Size, err = d.Map({{ $keyKind }}, {{ $valKind }})
         if err != nil {
         return err
         }
-- 
2.43.0


From 6d0cffd7917dc3a9401bb1b6628ee10f12fdc1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 30/53] fix: generated Go code for files without messages does
 not compile

---
 generator/golang/generator.go    |  2 +-
 generator/golang/imports.go      | 13 +++++++++++++
 v2/generator/golang/generator.go |  2 +-
 v2/generator/golang/imports.go   | 13 +++++++++++++
 4 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index 075cf3f..cf37e08 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -120,7 +120,7 @@ func (g *Generator) ExecuteTemplate(
 		"pluginVersion":   version.Version(),
 		"sourcePath":      protoFile.Desc.Path(),
 		"package":         packageName,
-		"requiredImports": RequiredImports,
+		"requiredImports": imports(protoFile),
 		"enums":           protoFile.Desc.Enums(),
 		"messages":        protoFile.Desc.Messages(),
 		"header":          header,
diff --git a/generator/golang/imports.go b/generator/golang/imports.go
index 930c15a..86610a0 100644
--- a/generator/golang/imports.go
+++ b/generator/golang/imports.go
@@ -16,9 +16,22 @@
 
 package golang
 
+import (
+	"google.golang.org/protobuf/compiler/protogen"
+)
+
 var (
 	RequiredImports = []string{
 		"github.com/loopholelabs/polyglot",
 		"errors",
 	}
 )
+
+// imports returns the imports that the code generated for file uses.
+func imports(file *protogen.File) []string {
+	if len(file.Messages) > 0 {
+		return RequiredImports
+	}
+	// without messages, only the error declarations are generated
+	return []string{"errors"}
+}
diff --git a/v2/generator/golang/generator.go b/v2/generator/golang/generator.go
index 2a33a27..ecd93dc 100644
--- a/v2/generator/golang/generator.go
+++ b/v2/generator/golang/generator.go
@@ -120,7 +120,7 @@ func (g *Generator) ExecuteTemplate(
 		"pluginVersion":   version.Version(),
 		"sourcePath":      protoFile.Desc.Path(),
 		"package":         packageName,
-		"requiredImports": RequiredImports,
+		"requiredImports": imports(protoFile),
 		"enums":           protoFile.Desc.Enums(),
 		"messages":        protoFile.Desc.Messages(),
 		"header":          header,
diff --git a/v2/generator/golang/imports.go b/v2/generator/golang/imports.go
index 407a4cd..edc57ce 100644
--- a/v2/generator/golang/imports.go
+++ b/v2/generator/golang/imports.go
@@ -16,9 +16,22 @@
 
 package golang
 
+import (
+	"google.golang.org/protobuf/compiler/protogen"
+)
+
 var (
 	RequiredImports = []string{
 		"github.com/loopholelabs/polyglot/v2",
 		"errors",
 	}
 )
+
+// imports returns the imports that the code generated for file uses.
+func imports(file *protogen.File) []string {
+	if len(file.Messages) > 0 {
+		return RequiredImports
+	}
+	// without messages, only the error declarations are generated
+	return []string{"errors"}
+}
-- 
2.43.0


From 2c3f62caf5b495b6e7ac3736cc36540016c9f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 31/53] fix: generated Go code misses the enums of nested
 messages

---
 generator/golang/templates/messages.templ    | 4 ----
 generator/golang/templates/structs.templ     | 4 ++++
 v2/generator/golang/templates/messages.templ | 4 ----
 v2/generator/golang/templates/structs.templ  | 4 ++++
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/generator/golang/templates/messages.templ b/generator/golang/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/generator/golang/templates/messages.templ
+++ b/generator/golang/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/generator/golang/templates/structs.templ b/generator/golang/templates/structs.templ
index 6fc09e7..479c764 100644
--- a/generator/golang/templates/structs.templ
+++ b/generator/golang/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) -}}
+        {{ $enum := ($.Enums.Get $i) }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/v2/generator/golang/templates/messages.templ b/v2/generator/golang/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/v2/generator/golang/templates/messages.templ
+++ b/v2/generator/golang/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/golang/templates/structs.templ b/v2/generator/golang/templates/structs.templ
index 0f3c571..bf1f7cc 100644
--- a/v2/generator/golang/templates/structs.templ
+++ b/v2/generator/golang/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) -}}
+        {{ $enum := ($.Enums.Get $i) }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
-- 
2.43.0


From 0cf93e9b7bbc25bfabda51f6f228149ee21f5e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 32/53] fix: generated Go code for fields named like a
 generated method does not compile

---
 generator/golang/generator.go    |  2 +-
 generator/golang/structs.go      | 15 +++++++++++++--
 v2/generator/golang/generator.go |  2 +-
 v2/generator/golang/structs.go   | 15 +++++++++++++--
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index cf37e08..dd4102a 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -40,7 +40,7 @@ func New() *Generator {
 	var g *Generator
 	templ := template.Must(template.New("main").Funcs(template.FuncMap{
 		"CamelCase":          utils.CamelCaseFullName,
-		"CamelCaseName":      utils.CamelCaseName,
+		"CamelCaseName":      fieldName,
 		"MakeIterable":       utils.MakeIterable,
 		"Counter":            utils.Counter,
 		"FirstLowerCase":     utils.FirstLowerCase,
diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index 99472be..94f8a76 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -106,6 +106,17 @@ var (
 	}
 )
 
+// fieldName returns the name of the struct field generated for the field called name;
+// like protoc-gen-go, it keeps clear of the methods of the generated struct.
+func fieldName(name protoreflect.Name) string {
+	field := utils.CamelCaseName(name)
+	switch field {
+	case "Encode", "Decode", "Error":
+		return field + "_"
+	}
+	return field
+}
+
 func FindValue(field protoreflect.FieldDescriptor) string {
 	if kind, ok := typeLUT[field.Kind()]; !ok {
 		switch field.Kind() {
@@ -167,9 +178,9 @@ func GetEncodingFields(fields protoreflect.FieldDescriptors) EncodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, fieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, fieldName(field.Name())))
 				}
 			}
 		}
diff --git a/v2/generator/golang/generator.go b/v2/generator/golang/generator.go
index ecd93dc..ccd0f45 100644
--- a/v2/generator/golang/generator.go
+++ b/v2/generator/golang/generator.go
@@ -40,7 +40,7 @@ func New() *Generator {
 	var g *Generator
 	templ := template.Must(template.New("main").Funcs(template.FuncMap{
 		"CamelCase":          utils.CamelCaseFullName,
-		"CamelCaseName":      utils.CamelCaseName,
+		"CamelCaseName":      fieldName,
 		"MakeIterable":       utils.MakeIterable,
 		"Counter":            utils.Counter,
 		"FirstLowerCase":     utils.FirstLowerCase,
diff --git a/v2/generator/golang/structs.go b/v2/generator/golang/structs.go
index 29f998d..e92ef95 100644
--- a/v2/generator/golang/structs.go
+++ b/v2/generator/golang/structs.go
@@ -106,6 +106,17 @@ var (
 	}
 )
 
+// fieldName returns the name of the struct field generated for the field called name;
+// like protoc-gen-go, it keeps clear of the methods of the generated struct.
+func fieldName(name protoreflect.Name) string {
+	field := utils.CamelCaseName(name)
+	switch field {
+	case "Encode", "Decode", "Error":
+		return field + "_"
+	}
+	return field
+}
+
 func FindValue(field protoreflect.FieldDescriptor) string {
 	if kind, ok := typeLUT[field.Kind()]; !ok {
 		switch field.Kind() {
@@ -167,9 +178,9 @@ func GetEncodingFields(fields protoreflect.FieldDescriptors) EncodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, fieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, fieldName(field.Name())))
 				}
 			}
 		}
-- 
2.43.0


From 6f22700e6fef0aafac5c6d99c8b6e75fd9d2f966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 33/53] fix: generated Go constructors of recursive messages
 never return

---
 generator/golang/generator.go            |  1 +
 generator/golang/structs.go              | 25 ++++++++++++++++++++++++
 generator/golang/templates/structs.templ |  2 +-
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index dd4102a..fa19a0e 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -52,6 +52,7 @@ func New() *Generator {
 		"GetEncodingFields":  GetEncodingFields,
 		"GetDecodingFields":  GetDecodingFields,
 		"GetKindLUT":         GetKindLUT,
+		"IsRecursive":        isRecursive,
 		"CustomFields": func() string {
 			return g.CustomFields()
 		},
diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index 94f8a76..161703a 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -117,6 +117,31 @@ func fieldName(name protoreflect.Name) string {
 	return field
 }
 
+// isRecursive reports whether the message that field holds holds, directly or through
+// other singular fields, the message that field belongs to.
+func isRecursive(field protoreflect.FieldDescriptor) bool {
+	target := field.ContainingMessage().FullName()
+	seen := make(map[protoreflect.FullName]struct{})
+	var reaches func(message protoreflect.MessageDescriptor) bool
+	reaches = func(message protoreflect.MessageDescriptor) bool {
+		if message.FullName() == target {
+			return true
+		}
+		if _, ok := seen[message.FullName()]; ok {
+			return false
+		}
+		seen[message.FullName()] = struct{}{}
+		for i := 0; i < message.Fields().Len(); i++ {
+			f := message.Fields().Get(i)
+			if f.Kind() == protoreflect.MessageKind && f.Cardinality() != protoreflect.Repeated && reaches(f.Message()) {
+				return true
+			}
+		}
+		return false
+	}
+	return reaches(field.Message())
+}
+
 func FindValue(field protoreflect.FieldDescriptor) string {
 	if kind, ok := typeLUT[field.Kind()]; !ok {
 		switch field.Kind() {
diff --git a/generator/golang/templates/structs.templ b/generator/golang/templates/structs.templ
index 479c764..048c734 100644
--- a/generator/golang/templates/structs.templ
+++ b/generator/golang/templates/structs.templ
@@ -45,7 +45,7 @@ func New{{ CamelCase .FullName }}() *{{ CamelCase .FullName }} {
     return &{{ CamelCase .FullName }}{
         {{ range $i, $v := (MakeIterable .Fields.Len) -}}
             {{ $field := $.Fields.Get $i -}}
-            {{ if and (eq $field.Kind 11) (ne $field.Cardinality 3) -}} {{/* protoreflect.MessageKind protoreflect.Repeated */ -}}
+            {{ if and (eq $field.Kind 11) (ne $field.Cardinality 3) (not (IsRecursive $field)) -}} {{/* protoreflect.MessageKind protoreflect.Repeated */ -}}
                 {{ CamelCaseName $field.Name }}: New{{ CamelCase $field.Message.FullName }}(),
             {{end -}}
         {{end -}}
-- 
2.43.0


From 6b626abbd2e2b0cf8b7537ca692a723f168da07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 34/53] fix: generated Go code decodes nil messages to empty or
 stale ones

---
 generator/golang/templates/decode.templ       | 10 ++++++++++
 generator/golang/templates/decodeMap.templ    |  4 ++++
 v2/generator/golang/templates/decode.templ    |  8 ++++++++
 v2/generator/golang/templates/decodeMap.templ |  4 ++++
 4 files changed, 26 insertions(+)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index e70487d..e161ce1 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -52,10 +52,14 @@ var err error
     for i := uint32(0); i < sliceSize; i++ {
     {{ $decoder := GetLUTDecoder $field.Kind -}}
     {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
+    if d.Nil() {
+    x.{{ CamelCaseName $field.Name }}[i] = nil
+    } else {
     if x.{{ CamelCaseName $field.Name }}[i] == nil {
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    }
     {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
     var value uint32
     value, err = d{{ $decoder }}()
@@ -86,8 +90,11 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
         }
     {{ else -}}
+        if !d.Nil() {
         if x.{{ CamelCaseName $field.Name }} == nil {
         x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.Message.FullName }}()
         }
@@ -95,6 +102,9 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
+        }
     {{end -}}
 {{end -}}
     return nil
diff --git a/generator/golang/templates/decodeMap.templ b/generator/golang/templates/decodeMap.templ
index db58116..8c55268 100644
--- a/generator/golang/templates/decodeMap.templ
+++ b/generator/golang/templates/decodeMap.templ
@@ -30,8 +30,12 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.Decoder, size uint32) err
         }
         {{ $valDecoder := GetLUTDecoder .MapValue.Kind -}}
         {{ if and (eq $valDecoder "") (eq .MapValue.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
+        if d.Nil() {
+        v = nil
+        } else {
         v = New{{ CamelCase .MapValue.Message.FullName }}()
         err = v.decode(d)
+        }
         {{else -}}
             {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
                 {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 6df6e0b..cec3bc1 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -50,10 +50,14 @@ var err error
     for i := uint32(0); i < sliceSize; i++ {
     {{ $decoder := GetLUTDecoder $field.Kind -}}
     {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
+    if d.Nil() {
+    x.{{ CamelCaseName $field.Name }}[i] = nil
+    } else {
     if x.{{ CamelCaseName $field.Name }}[i] == nil {
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    }
     {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
     var value uint32
     value, err = d{{ $decoder }}()
@@ -84,6 +88,8 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
         }
     {{ else -}}
         if !d.Nil() {
@@ -92,6 +98,8 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
         }
     {{end -}}
 {{end -}}
diff --git a/v2/generator/golang/templates/decodeMap.templ b/v2/generator/golang/templates/decodeMap.templ
index 485e6b9..b7321b2 100644
--- a/v2/generator/golang/templates/decodeMap.templ
+++ b/v2/generator/golang/templates/decodeMap.templ
@@ -30,8 +30,12 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.BufferDecoder, size uint3
         }
         {{ $valDecoder := GetLUTDecoder .MapValue.Kind -}}
         {{ if and (eq $valDecoder "") (eq .MapValue.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
+        if d.Nil() {
+        v = nil
+        } else {
         v = New{{ CamelCase .MapValue.Message.FullName }}()
         err = v.decode(d)
+        }
         {{else -}}
             {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
                 {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
-- 
2.43.0


From 444704c0f0be0fde61e3998a7bab9051276c8909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 35/53] fix: generated Go code allocates whatever number of
 elements the input claims

---
 generator/golang/templates/decode.templ    | 20 +++++++++++++-------
 v2/generator/golang/templates/decode.templ | 20 +++++++++++++-------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index e161ce1..8329bf0 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -47,11 +47,15 @@ var err error
     return err
     }
     if uint32(len(x.{{ CamelCaseName $field.Name }})) != sliceSize {
-    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, sliceSize)
+    // grow with the elements that are there, not to whatever size the input claims
+    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, 0)
     }
     for i := uint32(0); i < sliceSize; i++ {
     {{ $decoder := GetLUTDecoder $field.Kind -}}
     {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
+    if uint32(len(x.{{ CamelCaseName $field.Name }})) == i {
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}, nil)
+    }
     if d.Nil() {
     x.{{ CamelCaseName $field.Name }}[i] = nil
     } else {
@@ -61,13 +65,14 @@ var err error
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
     }
     {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
-    var value uint32
-    value, err = d{{ $decoder }}()
-    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}(value)
+    value, err := d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}[:i], {{ CamelCase $field.Enum.FullName }}(value))
     {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
-    x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
+    value, err := d{{ $decoder }}(nil)
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}[:i], value)
     {{ else -}}
-        x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
+    value, err := d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}[:i], value)
     {{end -}}
     if err != nil {
     return err
@@ -85,7 +90,8 @@ var err error
         if err != nil {
         return err
         }
-        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map({{ CamelCaseName $field.Name }}Size)
+        // grow with the entries that are there, not to whatever size the input claims
+        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map(0)
         err = x.{{ CamelCaseName $field.Name }}.decode(d, {{ CamelCaseName $field.Name }}Size)
         if err != nil {
         return err
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index cec3bc1..bf043ea 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -45,11 +45,15 @@ var err error
     return err
     }
     if uint32(len(x.{{ CamelCaseName $field.Name }})) != sliceSize {
-    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, sliceSize)
+    // grow with the elements that are there, not to whatever size the input claims
+    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, 0)
     }
     for i := uint32(0); i < sliceSize; i++ {
     {{ $decoder := GetLUTDecoder $field.Kind -}}
     {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
+    if uint32(len(x.{{ CamelCaseName $field.Name }})) == i {
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}, nil)
+    }
     if d.Nil() {
     x.{{ CamelCaseName $field.Name }}[i] = nil
     } else {
@@ -59,13 +63,14 @@ var err error
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
     }
     {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
-    var value uint32
-    value, err = d{{ $decoder }}()
-    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}(value)
+    value, err := d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}[:i], {{ CamelCase $field.Enum.FullName }}(value))
     {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
-    x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
+    value, err := d{{ $decoder }}(nil)
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}[:i], value)
     {{ else -}}
-        x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
+    value, err := d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}[:i], value)
     {{end -}}
     if err != nil {
     return err
@@ -83,7 +88,8 @@ var err error
         if err != nil {
         return err
         }
-        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map({{ CamelCaseName $field.Name }}Size)
+        // grow with the entries that are there, not to whatever size the input claims
+        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map(0)
         err = x.{{ CamelCaseName $field.Name }}.decode(d, {{ CamelCaseName $field.Name }}Size)
         if err != nil {
         return err
-- 
2.43.0


From ec5240f8a76359093ba2bad0043c2143925b60b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 36/53] fix: Rust generator overflows the stack on recursive
 messages and misses imports for nested enums and maps

---
 generator/rust/imports.go    | 38 ++++++++++++------------------------
 v2/generator/rust/imports.go | 38 ++++++++++++------------------------
 2 files changed, 26 insertions(+), 50 deletions(-)

diff --git a/generator/rust/imports.go b/generator/rust/imports.go
index c8e7e00..b9273a6 100644
--- a/generator/rust/imports.go
+++ b/generator/rust/imports.go
@@ -18,7 +18,6 @@ package rust
 
 import (
 	"google.golang.org/protobuf/compiler/protogen"
-	"google.golang.org/protobuf/reflect/protoreflect"
 )
 
 type Dependencies struct {
@@ -28,38 +27,27 @@ type Dependencies struct {
 
 func DependencyAnalysis(file *protogen.File) *Dependencies {
 	dependencies := &Dependencies{
-		Enums: false,
+		Enums: len(file.Enums) > 0,
 		Maps:  false,
 	}
-
-	if len(file.Enums) > 0 {
-		dependencies.Enums = true
-	}
 	for _, message := range file.Messages {
-		for _, field := range message.Fields {
-			if field.Desc.Kind() == protoreflect.MessageKind {
-				if field.Desc.Message().IsMapEntry() {
-					dependencies.Maps = true
-				}
-				if field.Desc.Message().Fields().Len() > 0 {
-					dependencies = traverseFields(field.Message, dependencies)
-				}
-			}
-		}
+		traverseMessage(message, dependencies)
 	}
 	return dependencies
 }
 
-func traverseFields(message *protogen.Message, dependencies *Dependencies) *Dependencies {
+// traverseMessage records what the code generated for message, and for the enums and
+// messages nested in it, depends on.
+func traverseMessage(message *protogen.Message, dependencies *Dependencies) {
+	if len(message.Enums) > 0 {
+		dependencies.Enums = true
+	}
 	for _, field := range message.Fields {
-		if field.Desc.Kind() == protoreflect.MessageKind {
-			if field.Desc.Message().IsMapEntry() {
-				dependencies.Maps = true
-			}
-			if field.Desc.Message().Fields().Len() > 0 {
-				dependencies = traverseFields(field.Message, dependencies)
-			}
+		if field.Desc.IsMap() {
+			dependencies.Maps = true
 		}
 	}
-	return dependencies
+	for _, nested := range message.Messages {
+		traverseMessage(nested, dependencies)
+	}
 }
diff --git a/v2/generator/rust/imports.go b/v2/generator/rust/imports.go
index c8e7e00..b9273a6 100644
--- a/v2/generator/rust/imports.go
+++ b/v2/generator/rust/imports.go
@@ -18,7 +18,6 @@ package rust
 
 import (
 	"google.golang.org/protobuf/compiler/protogen"
-	"google.golang.org/protobuf/reflect/protoreflect"
 )
 
 type Dependencies struct {
@@ -28,38 +27,27 @@ type Dependencies struct {
 
 func DependencyAnalysis(file *protogen.File) *Dependencies {
 	dependencies := &Dependencies{
-		Enums: false,
+		Enums: len(file.Enums) > 0,
 		Maps:  false,
 	}
-
-	if len(file.Enums) > 0 {
-		dependencies.Enums = true
-	}
 	for _, message := range file.Messages {
-		for _, field := range message.Fields {
-			if field.Desc.Kind() == protoreflect.MessageKind {
-				if field.Desc.Message().IsMapEntry() {
-					dependencies.Maps = true
-				}
-				if field.Desc.Message().Fields().Len() > 0 {
-					dependencies = traverseFields(field.Message, dependencies)
-				}
-			}
-		}
+		traverseMessage(message, dependencies)
 	}
 	return dependencies
 }
 
-func traverseFields(message *protogen.Message, dependencies *Dependencies) *Dependencies {
+// traverseMessage records what the code generated for message, and for the enums and
+// messages nested in it, depends on.
+func traverseMessage(message *protogen.Message, dependencies *Dependencies) {
+	if len(message.Enums) > 0 {
+		dependencies.Enums = true
+	}
 	for _, field := range message.Fields {
-		if field.Desc.Kind() == protoreflect.MessageKind {
-			if field.Desc.Message().IsMapEntry() {
-				dependencies.Maps = true
-			}
-			if field.Desc.Message().Fields().Len() > 0 {
-				dependencies = traverseFields(field.Message, dependencies)
-			}
+		if field.Desc.IsMap() {
+			dependencies.Maps = true
 		}
 	}
-	return dependencies
+	for _, nested := range message.Messages {
+		traverseMessage(nested, dependencies)
+	}
 }
-- 
2.43.0


From 03da447c48a8b6c40f66a8e9d54fe984298f4206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 37/53] fix: generated Rust code misses the enums of nested
 messages

---
 generator/rust/templates/messages.templ    | 4 ----
 generator/rust/templates/structs.templ     | 4 ++++
 v2/generator/rust/templates/messages.templ | 4 ----
 v2/generator/rust/templates/structs.templ  | 4 ++++
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/generator/rust/templates/messages.templ b/generator/rust/templates/messages.templ
index db077ec..195744a 100644
--- a/generator/rust/templates/messages.templ
+++ b/generator/rust/templates/messages.templ
@@ -8,10 +8,6 @@ pub trait Decode {
 }
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/generator/rust/templates/structs.templ b/generator/rust/templates/structs.templ
index 8890eca..efc82dc 100644
--- a/generator/rust/templates/structs.templ
+++ b/generator/rust/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) -}}
+        {{ $enum := ($.Enums.Get $i) }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/v2/generator/rust/templates/messages.templ b/v2/generator/rust/templates/messages.templ
index db077ec..195744a 100644
--- a/v2/generator/rust/templates/messages.templ
+++ b/v2/generator/rust/templates/messages.templ
@@ -8,10 +8,6 @@ pub trait Decode {
 }
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/rust/templates/structs.templ b/v2/generator/rust/templates/structs.templ
index 8890eca..efc82dc 100644
--- a/v2/generator/rust/templates/structs.templ
+++ b/v2/generator/rust/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) -}}
+        {{ $enum := ($.Enums.Get $i) }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
-- 
2.43.0


From 293c68f52f7dd43fe3bf707ff24f8974196d5101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 38/53] fix: generated Rust code for repeated numbers and enums
 does not compile

---
 generator/rust/templates/decode.templ    | 2 ++
 generator/rust/templates/encode.templ    | 8 +++++---
 v2/generator/rust/templates/decode.templ | 2 ++
 v2/generator/rust/templates/encode.templ | 8 +++++---
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/generator/rust/templates/decode.templ b/generator/rust/templates/decode.templ
index 4232690..7bf435c 100644
--- a/generator/rust/templates/decode.templ
+++ b/generator/rust/templates/decode.templ
@@ -23,6 +23,8 @@ impl Decode for {{ CamelCase .FullName }} {
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
+                {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+                temp.push({{ CamelCase $field.Enum.FullName }}::try_from(b{{ $decoder }}()?).ok().ok_or(DecodingError::InvalidEnum)?);
                 {{ else -}}
                 temp.push(b{{ $decoder }}()?);
                 {{ end -}}
diff --git a/generator/rust/templates/encode.templ b/generator/rust/templates/encode.templ
index 8a92671..e705415 100644
--- a/generator/rust/templates/encode.templ
+++ b/generator/rust/templates/encode.templ
@@ -28,10 +28,12 @@ impl Encode for {{ CamelCase .FullName }} {
         {{else -}}
         b.encode_array(self.{{ SnakeCaseName $field.Name}}.len(), {{ GetKindLUT $field.Kind }})?;
         for item in &self.{{ SnakeCaseName $field.Name}} {
-            {{ if eq $field.Kind 9 -}} {{/* protoreflect.StringKind */ -}}
-            b{{$encoder}}(&item)?;
-            {{ else -}}
+            {{ if or (eq $field.Kind 9) (eq $field.Kind 12) -}} {{/* protoreflect.StringKind protoreflect.BytesKind */ -}}
             b{{$encoder}}(item)?;
+            {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            b{{$encoder}}(*item as u32)?;
+            {{ else -}}
+            b{{$encoder}}(*item)?;
             {{ end -}}
         }
         {{end -}}
diff --git a/v2/generator/rust/templates/decode.templ b/v2/generator/rust/templates/decode.templ
index 4232690..7bf435c 100644
--- a/v2/generator/rust/templates/decode.templ
+++ b/v2/generator/rust/templates/decode.templ
@@ -23,6 +23,8 @@ impl Decode for {{ CamelCase .FullName }} {
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
+                {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+                temp.push({{ CamelCase $field.Enum.FullName }}::try_from(b{{ $decoder }}()?).ok().ok_or(DecodingError::InvalidEnum)?);
                 {{ else -}}
                 temp.push(b{{ $decoder }}()?);
                 {{ end -}}
diff --git a/v2/generator/rust/templates/encode.templ b/v2/generator/rust/templates/encode.templ
index 8a92671..e705415 100644
--- a/v2/generator/rust/templates/encode.templ
+++ b/v2/generator/rust/templates/encode.templ
@@ -28,10 +28,12 @@ impl Encode for {{ CamelCase .FullName }} {
         {{else -}}
         b.encode_array(self.{{ SnakeCaseName $field.Name}}.len(), {{ GetKindLUT $field.Kind }})?;
         for item in &self.{{ SnakeCaseName $field.Name}} {
-            {{ if eq $field.Kind 9 -}} {{/* protoreflect.StringKind */ -}}
-            b{{$encoder}}(&item)?;
-            {{ else -}}
+            {{ if or (eq $field.Kind 9) (eq $field.Kind 12) -}} {{/* protoreflect.StringKind protoreflect.BytesKind */ -}}
             b{{$encoder}}(item)?;
+            {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            b{{$encoder}}(*item as u32)?;
+            {{ else -}}
+            b{{$encoder}}(*item)?;
             {{ end -}}
         }
         {{end -}}
-- 
2.43.0


From ea0acb122847cb33443e13a46c482a81606e0456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 39/53] fix: generated Rust code for maps with number keys or
 string and bytes values does not compile

---
 generator/rust/templates/encode.templ    | 8 +++++---
 v2/generator/rust/templates/encode.templ | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/generator/rust/templates/encode.templ b/generator/rust/templates/encode.templ
index e705415..2848437 100644
--- a/generator/rust/templates/encode.templ
+++ b/generator/rust/templates/encode.templ
@@ -53,11 +53,11 @@ impl Encode for {{ CamelCase .FullName }} {
             k.encode(b)?;
             {{else -}}
                 {{ if eq $field.MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                b.encode_u32(k as u32)?;
+                b.encode_u32(*k as u32)?;
                 {{ else if eq $field.MapKey.Kind 9 -}}  {{/* protoreflect.StringsKind */ -}}
-                b{{$keyEncoder}}(&k)?;
+                b{{$keyEncoder}}(k)?;
                 {{else -}}
-                    b{{$keyEncoder}}(k)?;
+                    b{{$keyEncoder}}(*k)?;
                 {{end -}}
             {{end -}}
             {{ $valEncoder := GetLUTEncoder $field.MapValue.Kind -}}
@@ -66,6 +66,8 @@ impl Encode for {{ CamelCase .FullName }} {
             {{else -}}
                 {{ if eq $field.MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
                 b.encode_u32(*v as u32)?;
+                {{ else if or (eq $field.MapValue.Kind 9) (eq $field.MapValue.Kind 12) -}}  {{/* protoreflect.StringKind protoreflect.BytesKind */ -}}
+                b{{$valEncoder}}(v)?;
                 {{else -}}
                     b{{$valEncoder}}(*v)?;
                 {{end -}}
diff --git a/v2/generator/rust/templates/encode.templ b/v2/generator/rust/templates/encode.templ
index e705415..2848437 100644
--- a/v2/generator/rust/templates/encode.templ
+++ b/v2/generator/rust/templates/encode.templ
@@ -53,11 +53,11 @@ impl Encode for {{ CamelCase .FullName }} {
             k.encode(b)?;
             {{else -}}
                 {{ if eq $field.MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                b.encode_u32(k as u32)?;
+                b.encode_u32(*k as u32)?;
                 {{ else if eq $field.MapKey.Kind 9 -}}  {{/* protoreflect.StringsKind */ -}}
-                b{{$keyEncoder}}(&k)?;
+                b{{$keyEncoder}}(k)?;
                 {{else -}}
-                    b{{$keyEncoder}}(k)?;
+                    b{{$keyEncoder}}(*k)?;
                 {{end -}}
             {{end -}}
             {{ $valEncoder := GetLUTEncoder $field.MapValue.Kind -}}
@@ -66,6 +66,8 @@ impl Encode for {{ CamelCase .FullName }} {
             {{else -}}
                 {{ if eq $field.MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
                 b.encode_u32(*v as u32)?;
+                {{ else if or (eq $field.MapValue.Kind 9) (eq $field.MapValue.Kind 12) -}}  {{/* protoreflect.StringKind protoreflect.BytesKind */ -}}
+                b{{$valEncoder}}(v)?;
                 {{else -}}
                     b{{$valEncoder}}(*v)?;
                 {{end -}}
-- 
2.43.0


From 02473d4b8a973b804ee9e23f4324e68390a55d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 40/53] fix: generated Rust code allocates whatever number of
 elements the input claims

---
 generator/rust/templates/decode.templ    | 3 ++-
 v2/generator/rust/templates/decode.templ | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/rust/templates/decode.templ b/generator/rust/templates/decode.templ
index 7bf435c..2fa731d 100644
--- a/generator/rust/templates/decode.templ
+++ b/generator/rust/templates/decode.templ
@@ -19,7 +19,8 @@ impl Decode for {{ CamelCase .FullName }} {
             {{ $decoder := GetLUTDecoder $field.Kind -}}
 
             let {{ SnakeCaseName $field.Name }}_size = b.decode_array({{ $kind }})?;
-            let mut temp = Vec::with_capacity({{ SnakeCaseName $field.Name }}_size);
+            // grows with the elements that are there, not to whatever size the input claims
+            let mut temp = Vec::new();
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
diff --git a/v2/generator/rust/templates/decode.templ b/v2/generator/rust/templates/decode.templ
index 7bf435c..2fa731d 100644
--- a/v2/generator/rust/templates/decode.templ
+++ b/v2/generator/rust/templates/decode.templ
@@ -19,7 +19,8 @@ impl Decode for {{ CamelCase .FullName }} {
             {{ $decoder := GetLUTDecoder $field.Kind -}}
 
             let {{ SnakeCaseName $field.Name }}_size = b.decode_array({{ $kind }})?;
-            let mut temp = Vec::with_capacity({{ SnakeCaseName $field.Name }}_size);
+            // grows with the elements that are there, not to whatever size the input claims
+            let mut temp = Vec::new();
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
-- 
2.43.0


From 3d4ef2c9b2a08a1ddf6d585c5f2598f5f75b847c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 41/53] fix: generated Rust code for fields named like a
 keyword does not compile

---
 generator/rust/generator.go    |  2 +-
 generator/rust/structs.go      | 26 ++++++++++++++++++++++----
 v2/generator/rust/generator.go |  2 +-
 v2/generator/rust/structs.go   | 26 ++++++++++++++++++++++----
 4 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/generator/rust/generator.go b/generator/rust/generator.go
index 7ebb320..38d9809 100644
--- a/generator/rust/generator.go
+++ b/generator/rust/generator.go
@@ -68,7 +68,7 @@ func New() *Generator {
 		"GetDecodingFields":  getDecodingFields,
 		"GetKindLUT":         getKindLUT,
 		"SnakeCase":          utils.SnakeCase,
-		"SnakeCaseName":      utils.SnakeCaseName,
+		"SnakeCaseName":      fieldName,
 		"CustomFields": func() string {
 			return g.CustomFields()
 		},
diff --git a/generator/rust/structs.go b/generator/rust/structs.go
index 6fe5abd..f870afd 100644
--- a/generator/rust/structs.go
+++ b/generator/rust/structs.go
@@ -107,6 +107,24 @@ var (
 	}
 )
 
+// fieldName returns the name of the struct field generated for the field called name,
+// which must not be a Rust keyword.
+func fieldName(name protoreflect.Name) string {
+	field := utils.SnakeCaseName(name)
+	switch field {
+	case "abstract", "as", "async", "await", "become", "box", "break", "const",
+		"continue", "do", "dyn", "else", "enum", "extern", "false", "final",
+		"fn", "for", "gen", "if", "impl", "in", "let", "loop",
+		"macro", "match", "mod", "move", "mut", "override", "priv", "pub",
+		"ref", "return", "static", "struct", "trait", "true", "try", "type",
+		"typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield":
+		return "r#" + field
+	case "crate", "self", "super": // these cannot be raw identifiers
+		return field + "_"
+	}
+	return field
+}
+
 func findValue(field protoreflect.FieldDescriptor) string {
 	if kind, ok := typeLUT[field.Kind()]; !ok {
 		switch field.Kind() {
@@ -168,13 +186,13 @@ func getEncodingFields(fields protoreflect.FieldDescriptors) encodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(self.%s  as u32)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(self.%s  as u32)", encoder, fieldName(field.Name())))
 				} else if field.Kind() == protoreflect.StringKind {
-					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, fieldName(field.Name())))
 				} else if field.Kind() == protoreflect.BytesKind {
-					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, fieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(self.%s)", encoder, fieldName(field.Name())))
 				}
 			}
 		}
diff --git a/v2/generator/rust/generator.go b/v2/generator/rust/generator.go
index 75c60ca..95f1a9d 100644
--- a/v2/generator/rust/generator.go
+++ b/v2/generator/rust/generator.go
@@ -68,7 +68,7 @@ func New() *Generator {
 		"GetDecodingFields":  getDecodingFields,
 		"GetKindLUT":         getKindLUT,
 		"SnakeCase":          utils.SnakeCase,
-		"SnakeCaseName":      utils.SnakeCaseName,
+		"SnakeCaseName":      fieldName,
 		"CustomFields": func() string {
 			return g.CustomFields()
 		},
diff --git a/v2/generator/rust/structs.go b/v2/generator/rust/structs.go
index c154992..2d1cb32 100644
--- a/v2/generator/rust/structs.go
+++ b/v2/generator/rust/structs.go
@@ -107,6 +107,24 @@ var (
 	}
 )
 
+// fieldName returns the name of the struct field generated for the field called name,
+// which must not be a Rust keyword.
+func fieldName(name protoreflect.Name) string {
+	field := utils.SnakeCaseName(name)
+	switch field {
+	case "abstract", "as", "async", "await", "become", "box", "break", "const",
+		"continue", "do", "dyn", "else", "enum", "extern", "false", "final",
+		"fn", "for", "gen", "if", "impl", "in", "let", "loop",
+		"macro", "match", "mod", "move", "mut", "override", "priv", "pub",
+		"ref", "return", "static", "struct", "trait", "true", "try", "type",
+		"typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield":
+		return "r#" + field
+	case "crate", "self", "super": // these cannot be raw identifiers
+		return field + "_"
+	}
+	return field
+}
+
 func findValue(field protoreflect.FieldDescriptor) string {
 	if kind, ok := typeLUT[field.Kind()]; !ok {
 		switch field.Kind() {
@@ -168,13 +186,13 @@ func getEncodingFields(fields protoreflect.FieldDescriptors) encodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(self.%s  as u32)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(self.%s  as u32)", encoder, fieldName(field.Name())))
 				} else if field.Kind() == protoreflect.StringKind {
-					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, fieldName(field.Name())))
 				} else if field.Kind() == protoreflect.BytesKind {
-					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, fieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(self.%s)", encoder, fieldName(field.Name())))
 				}
 			}
 		}
-- 
2.43.0


From 6450730b8148c1f1a8dac1db31b0e71dc706a42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 42/53] fix: generated TypeScript files import what earlier
 files needed

---
 generator/typescript/generator.go    | 3 +++
 v2/generator/typescript/generator.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/generator/typescript/generator.go b/generator/typescript/generator.go
index 8b467f9..3a2ae7c 100644
--- a/generator/typescript/generator.go
+++ b/generator/typescript/generator.go
@@ -142,6 +142,9 @@ func (g *Generator) ExecuteTemplate(
 	packageName string,
 	header bool,
 ) error {
+	// the imports of a file are its own, not also those of the files before it
+	g.dependencies = map[string]struct{}{}
+
 	var bodyBuf bytes.Buffer
 	if err := g.templ.ExecuteTemplate(&bodyBuf, "body.templ", map[string]interface{}{
 		"enums":    protoFile.Desc.Enums(),
diff --git a/v2/generator/typescript/generator.go b/v2/generator/typescript/generator.go
index 29f538a..837655c 100644
--- a/v2/generator/typescript/generator.go
+++ b/v2/generator/typescript/generator.go
@@ -142,6 +142,9 @@ func (g *Generator) ExecuteTemplate(
 	packageName string,
 	header bool,
 ) error {
+	// the imports of a file are its own, not also those of the files before it
+	g.dependencies = map[string]struct{}{}
+
 	var bodyBuf bytes.Buffer
 	if err := g.templ.ExecuteTemplate(&bodyBuf, "body.templ", map[string]interface{}{
 		"enums":    protoFile.Desc.Enums(),
-- 
2.43.0


From 89511b9b9202bbf477fb0b757390c68fad41a871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 43/53] fix: Rust generator keeps the privacy option of earlier
 requests

---
 generator/rust/generator.go    | 5 +++++
 v2/generator/rust/generator.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/generator/rust/generator.go b/generator/rust/generator.go
index 38d9809..fbb91b9 100644
--- a/generator/rust/generator.go
+++ b/generator/rust/generator.go
@@ -42,6 +42,7 @@ const (
 type Generator struct {
 	options      *protogen.Options
 	templ        *template.Template
+	privacy      *string
 	CustomFields func() string
 	CustomEncode func() string
 	CustomDecode func() string
@@ -89,6 +90,7 @@ func New() *Generator {
 			ImportRewriteFunc: func(path protogen.GoImportPath) protogen.GoImportPath { return path },
 		},
 		templ:        templ,
+		privacy:      privacy,
 		CustomEncode: func() string { return "" },
 		CustomDecode: func() string { return "" },
 		CustomFields: func() string { return "" },
@@ -106,6 +108,9 @@ func (*Generator) MarshalResponse(res *pluginpb.CodeGeneratorResponse) ([]byte,
 }
 
 func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.CodeGeneratorResponse, err error) {
+	// a request without the option is not to use the value of the request before it
+	*g.privacy = GeneratedFieldPrivacyPrivate
+
 	plugin, err := g.options.New(req)
 	if err != nil {
 		return nil, err
diff --git a/v2/generator/rust/generator.go b/v2/generator/rust/generator.go
index 95f1a9d..e3a3683 100644
--- a/v2/generator/rust/generator.go
+++ b/v2/generator/rust/generator.go
@@ -42,6 +42,7 @@ const (
 type Generator struct {
 	options      *protogen.Options
 	templ        *template.Template
+	privacy      *string
 	CustomFields func() string
 	CustomEncode func() string
 	CustomDecode func() string
@@ -89,6 +90,7 @@ func New() *Generator {
 			ImportRewriteFunc: func(path protogen.GoImportPath) protogen.GoImportPath { return path },
 		},
 		templ:        templ,
+		privacy:      privacy,
 		CustomEncode: func() string { return "" },
 		CustomDecode: func() string { return "" },
 		CustomFields: func() string { return "" },
@@ -106,6 +108,9 @@ func (*Generator) MarshalResponse(res *pluginpb.CodeGeneratorResponse) ([]byte,
 }
 
 func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.CodeGeneratorResponse, err error) {
+	// a request without the option is not to use the value of the request before it
+	*g.privacy = GeneratedFieldPrivacyPrivate
+
 	plugin, err := g.options.New(req)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 6d46dfb121a21874ec74af2d8b93784f9211c6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:14 +0000
Subject: [PATCH 44/53] fix: generated TypeScript code calls functions the
 library does not have

---
 generator/typescript/structs.go               | 72 +++++++++----------
 generator/typescript/templates/decode.templ   | 45 +++++-------
 .../typescript/templates/decodeMap.templ      | 30 +++-----
 generator/typescript/templates/encode.templ   | 32 ++++-----
 v2/generator/typescript/structs.go            | 72 +++++++++----------
 .../typescript/templates/decode.templ         | 45 +++++-------
 .../typescript/templates/decodeMap.templ      | 30 +++-----
 .../typescript/templates/encode.templ         | 32 ++++-----
 8 files changed, 156 insertions(+), 202 deletions(-)

diff --git a/generator/typescript/structs.go b/generator/typescript/structs.go
index db99571..ccdd7d9 100644
--- a/generator/typescript/structs.go
+++ b/generator/typescript/structs.go
@@ -50,41 +50,41 @@ var (
 	}
 
 	encodeLUT = map[protoreflect.Kind]string{
-		protoreflect.BoolKind:     "encodeBoolean",
-		protoreflect.Int32Kind:    "encodeInt32",
-		protoreflect.Sint32Kind:   "encodeInt32",
-		protoreflect.Uint32Kind:   "encodeUint32",
-		protoreflect.Int64Kind:    "encodeInt64",
-		protoreflect.Sint64Kind:   "encodeInt64",
-		protoreflect.Uint64Kind:   "encodeUint64",
-		protoreflect.Sfixed32Kind: "encodeInt32",
-		protoreflect.Sfixed64Kind: "encodeInt64",
-		protoreflect.Fixed32Kind:  "encodeUint32",
-		protoreflect.Fixed64Kind:  "encodeUint64",
-		protoreflect.StringKind:   "encodeString",
-		protoreflect.FloatKind:    "encodeFloat32",
-		protoreflect.DoubleKind:   "encodeFloat64",
-		protoreflect.BytesKind:    "encodeBytes",
-		protoreflect.EnumKind:     "encodeUint32",
+		protoreflect.BoolKind:     ".boolean",
+		protoreflect.Int32Kind:    ".int32",
+		protoreflect.Sint32Kind:   ".int32",
+		protoreflect.Uint32Kind:   ".uint32",
+		protoreflect.Int64Kind:    ".int64",
+		protoreflect.Sint64Kind:   ".int64",
+		protoreflect.Uint64Kind:   ".uint64",
+		protoreflect.Sfixed32Kind: ".int32",
+		protoreflect.Sfixed64Kind: ".int64",
+		protoreflect.Fixed32Kind:  ".uint32",
+		protoreflect.Fixed64Kind:  ".uint64",
+		protoreflect.StringKind:   ".string",
+		protoreflect.FloatKind:    ".float32",
+		protoreflect.DoubleKind:   ".float64",
+		protoreflect.BytesKind:    ".uint8Array",
+		protoreflect.EnumKind:     ".uint32",
 	}
 
 	decodeLUT = map[protoreflect.Kind]string{
-		protoreflect.BoolKind:     "decodeBoolean",
-		protoreflect.Int32Kind:    "decodeInt32",
-		protoreflect.Sint32Kind:   "decodeInt32",
-		protoreflect.Uint32Kind:   "decodeUint32",
-		protoreflect.Int64Kind:    "decodeInt64",
-		protoreflect.Sint64Kind:   "decodeInt64",
-		protoreflect.Uint64Kind:   "decodeUint64",
-		protoreflect.Sfixed32Kind: "decodeInt32",
-		protoreflect.Sfixed64Kind: "decodeInt64",
-		protoreflect.Fixed32Kind:  "decodeUint32",
-		protoreflect.Fixed64Kind:  "decodeUint64",
-		protoreflect.StringKind:   "decodeString",
-		protoreflect.FloatKind:    "decodeFloat32",
-		protoreflect.DoubleKind:   "decodeFloat64",
-		protoreflect.BytesKind:    "decodeBytes",
-		protoreflect.EnumKind:     "decodeUint32",
+		protoreflect.BoolKind:     ".boolean",
+		protoreflect.Int32Kind:    ".int32",
+		protoreflect.Sint32Kind:   ".int32",
+		protoreflect.Uint32Kind:   ".uint32",
+		protoreflect.Int64Kind:    ".int64",
+		protoreflect.Sint64Kind:   ".int64",
+		protoreflect.Uint64Kind:   ".uint64",
+		protoreflect.Sfixed32Kind: ".int32",
+		protoreflect.Sfixed64Kind: ".int64",
+		protoreflect.Fixed32Kind:  ".uint32",
+		protoreflect.Fixed64Kind:  ".uint64",
+		protoreflect.StringKind:   ".string",
+		protoreflect.FloatKind:    ".float32",
+		protoreflect.DoubleKind:   ".float64",
+		protoreflect.BytesKind:    ".uint8Array",
+		protoreflect.EnumKind:     ".uint32",
 	}
 
 	kindLUT = map[protoreflect.Kind]string{
@@ -168,9 +168,9 @@ func getEncodingFields(trackDependency func(dep string) string, fields protorefl
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(encoded, this.%s as number)", encoder, utils.LowercaseCamelCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(this._%s as number)", encoder, utils.LowercaseCamelCaseName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(encoded, this.%s)", encoder, utils.LowercaseCamelCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(this._%s)", encoder, utils.LowercaseCamelCaseName(field.Name())))
 				}
 			}
 		}
@@ -237,7 +237,7 @@ func getKind(dependencies map[string]struct{}, kind protoreflect.Kind) string {
 func getLUTEncoder(trackDependency func(dep string) string, kind protoreflect.Kind) string {
 	encoder, ok := encodeLUT[kind]
 	if ok {
-		trackDependency(encoder)
+		trackDependency("Encoder")
 	}
 
 	return encoder
@@ -246,7 +246,7 @@ func getLUTEncoder(trackDependency func(dep string) string, kind protoreflect.Ki
 func getLUTDecoder(trackDependency func(dep string) string, kind protoreflect.Kind) string {
 	decoder, ok := decodeLUT[kind]
 	if ok {
-		trackDependency(decoder)
+		trackDependency("Decoder")
 	}
 
 	return decoder
diff --git a/generator/typescript/templates/decode.templ b/generator/typescript/templates/decode.templ
index 01cee76..c9fab19 100644
--- a/generator/typescript/templates/decode.templ
+++ b/generator/typescript/templates/decode.templ
@@ -1,29 +1,20 @@
 {{define "decode"}}
-    static decode(buf: Uint8Array): { buf: Uint8Array, value: {{ CamelCase .FullName }}} {
-        let decoded = buf
-        
+    static decode(decoder: {{ TrackDependency "Decoder" }}): {{ CamelCase .FullName }} {
         {{ $decoding := GetDecodingFields .Fields -}}
         {{ range $field := $decoding.SliceFields -}}
             {{ $val := FindValue $field }}
             {{ $kind := GetKind $field.Kind -}}
             {{ $decoder := GetLUTDecoder $field.Kind -}}
 
-            let {{ LowercaseCamelCaseName $field.Name }} = {{ TrackDependency "decodeArray" }}(decoded)
-            decoded = {{ LowercaseCamelCaseName $field.Name }}.buf
-            const {{ LowercaseCamelCaseName $field.Name }}Temp: { value: {{ $val }} } = { value: [] }
-            for (let i = 0; i < {{ LowercaseCamelCaseName $field.Name }}.size; i++) {
+            const {{ LowercaseCamelCaseName $field.Name }}Temp: {{ $val }} = []
+            for (let i = decoder.array({{ $kind }}); i > 0; i--) {
                 {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                    let elementEnum = {{ TrackDependency "decodeUint32" }}(decoded)
-                    const element = { value: elementEnum as {{ $val }} }
-                    decoded = element.bufEnum
+                    {{ LowercaseCamelCaseName $field.Name }}Temp.push(decoder{{ $decoder }}() as {{ TrimSuffix $val "[]" }})
                 {{ else if eq $field.Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
-                    let element = {{ TrimSuffix $val "[]" }}.decode(decoded)
-                    decoded = element.buf
+                    {{ LowercaseCamelCaseName $field.Name }}Temp.push({{ TrimSuffix $val "[]" }}.decode(decoder))
                 {{ else -}}
-                    let element = {{ $decoder }}(decoded)
-                    decoded = element.buf
-                {{end -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value.push(element.value)
+                    {{ LowercaseCamelCaseName $field.Name }}Temp.push(decoder{{ $decoder }}())
+                {{ end -}}
             }
         {{ end -}}
 
@@ -32,34 +23,30 @@
             {{ if $field.IsMap -}}
                 {{ template "decodeMap" $field -}}
             {{ else -}}
-                let {{ LowercaseCamelCaseName $field.Name }}Temp = {{ $val }}.decode(decoded)
-                decoded = {{ LowercaseCamelCaseName $field.Name }}Temp.buf
+                const {{ LowercaseCamelCaseName $field.Name }}Temp = {{ $val }}.decode(decoder)
             {{ end -}}
-        {{ end -}}
+        {{ end }}
 
         {{ range $field := $decoding.Other -}}
             {{ $val := FindValue $field }}
             {{ $decoder := GetLUTDecoder $field.Kind -}}
             {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                let {{ LowercaseCamelCaseName $field.Name }}U32 = {{ TrackDependency "decodeUint32" }}(decoded)
-                const {{ LowercaseCamelCaseName $field.Name }}Temp = { value: {{ LowercaseCamelCaseName $field.Name }}U32 as {{ $val }} }
-                decoded = {{ LowercaseCamelCaseName $field.Name }}U32.buf
+                const {{ LowercaseCamelCaseName $field.Name }}Temp = decoder{{ $decoder }}() as {{ $val }}
             {{ else -}}
-                let {{ LowercaseCamelCaseName $field.Name }}Temp = {{ $decoder }}(decoded)
-                decoded = {{ LowercaseCamelCaseName $field.Name }}Temp.buf
+                const {{ LowercaseCamelCaseName $field.Name }}Temp = decoder{{ $decoder }}()
             {{end -}}
         {{end}}
 
-        return { buf: decoded, value: new {{ CamelCase .FullName }}(
+        return new {{ CamelCase .FullName }}(
             {{ range $field := $decoding.Other -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value,
+                {{ LowercaseCamelCaseName $field.Name }}Temp,
             {{end -}}
             {{ range $field := $decoding.SliceFields -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value,
+                {{ LowercaseCamelCaseName $field.Name }}Temp,
             {{ end -}}
             {{ range $field := $decoding.MessageFields -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value,
+                {{ LowercaseCamelCaseName $field.Name }}Temp,
             {{ end -}}
-        )}
+        )
     }
 {{end}}
diff --git a/generator/typescript/templates/decodeMap.templ b/generator/typescript/templates/decodeMap.templ
index a370586..5de25b0 100644
--- a/generator/typescript/templates/decodeMap.templ
+++ b/generator/typescript/templates/decodeMap.templ
@@ -3,35 +3,27 @@
 {{ $mapValueValue := FindValue .MapValue }}
 {{ $keyDecoder := GetLUTDecoder .MapKey.Kind -}}
 {{ $valDecoder := GetLUTDecoder .MapValue.Kind -}}
+{{ $keyKind := GetKind .MapKey.Kind -}}
+{{ $valKind := GetKind .MapValue.Kind -}}
 
-let {{ LowercaseCamelCaseName .Name }} = {{ TrackDependency "decodeMap" }}(decoded)
-decoded = {{ LowercaseCamelCaseName .Name }}.buf
-const {{ LowercaseCamelCaseName .Name }}Temp: { value: Map<{{ $mapKeyValue }},{{ $mapValueValue }}> } = { value: new Map() }
-for (let i = 0; i < {{ LowercaseCamelCaseName .Name }}.size; i++) {
+const {{ LowercaseCamelCaseName .Name }}Temp: Map<{{ $mapKeyValue }}, {{ $mapValueValue }}> = new Map()
+for (let i = decoder.map({{ $keyKind }}, {{ $valKind }}); i > 0; i--) {
     {{ if eq .MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-        let keyEnum = {{ TrackDependency "decodeUint32" }}(decoded)
-        const key = { value: keyEnum as {{ $mapKeyValue }} }
-        decoded = keyEnum.buf
+        const key = decoder{{ $keyDecoder }}() as {{ $mapKeyValue }}
     {{ else if eq .MapKey.Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
-        let key = {{ TrimSuffix $mapKeyValue "[]" }}.decode(decoded)
-        decoded = key.buf
+        const key = {{ $mapKeyValue }}.decode(decoder)
     {{ else -}}
-        let key = {{ $keyDecoder }}(decoded)
-        decoded = key.buf
+        const key = decoder{{ $keyDecoder }}()
     {{end}}
 
     {{ if eq .MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-        let valueEnum = {{ TrackDependency "decodeUint32" }}(decoded)
-        const value = { value: valueEnum as {{ $mapValueValue }} }
-        decoded = valueEnum.buf
+        const value = decoder{{ $valDecoder }}() as {{ $mapValueValue }}
     {{ else if eq .MapValue.Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
-        let value = {{ TrimSuffix $mapValueValue "[]" }}.decode(decoded)
-        decoded = value.buf
+        const value = {{ $mapValueValue }}.decode(decoder)
     {{ else -}}
-        let value = {{ $valDecoder }}(decoded)
-        decoded = value.buf
+        const value = decoder{{ $valDecoder }}()
     {{end}}
 
-    {{ LowercaseCamelCaseName .Name }}.value.set(key, value)
+    {{ LowercaseCamelCaseName .Name }}Temp.set(key, value)
 }
 {{end}}
\ No newline at end of file
diff --git a/generator/typescript/templates/encode.templ b/generator/typescript/templates/encode.templ
index 6459655..d8bdddc 100644
--- a/generator/typescript/templates/encode.templ
+++ b/generator/typescript/templates/encode.templ
@@ -1,11 +1,9 @@
 {{define "encode"}}
-    encode(buf: Uint8Array): Uint8Array {
-        let encoded = buf
-        
+    encode(encoder: {{ TrackDependency "Encoder" }}): {{ TrackDependency "Encoder" }} {
         {{ $encoding := GetEncodingFields .Fields -}}
 
         {{ range $val := $encoding.Values}}
-        encoded = {{ $val -}}
+        encoder{{ $val -}}
         {{end }}
 
         {{ if $encoding.SliceFields -}}
@@ -15,7 +13,7 @@
             {{template "encodeMessages" $encoding -}}
         {{end}}
         
-        return encoded
+        return encoder
     }
 {{end}}
 
@@ -24,14 +22,14 @@
         {{ $encoder := GetLUTEncoder $field.Kind -}}
 
         {{ if and (eq $encoder "") (eq $field.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
-        encoded = {{ TrackDependency "encodeArray" }}(encoded, this._{{ LowercaseCamelCaseName $field.Name}}.length, Kind.Any)
+        encoder.array(this._{{ LowercaseCamelCaseName $field.Name}}.length, {{ GetKind $field.Kind }})
         this._{{ LowercaseCamelCaseName $field.Name}}.forEach((field) => {
-            encoded = field.encode(encoded)
+            field.encode(encoder)
         })
         {{else -}}
-        encoded = {{ TrackDependency "encodeArray" }}(this._{{ LowercaseCamelCaseName $field.Name}}.length, {{ GetKindLUT $field.Kind }})
+        encoder.array(this._{{ LowercaseCamelCaseName $field.Name}}.length, {{ GetKindLUT $field.Kind }})
         this._{{ LowercaseCamelCaseName $field.Name}}.forEach((field) => {
-            encoded = {{$encoder}}(encoded, field)
+            encoder{{$encoder}}(field)
         })
         {{end -}}
     {{end -}}
@@ -43,31 +41,31 @@
         {{ if $field.IsMap -}}
             {{ $keyKind := GetKind $field.MapKey.Kind -}}
             {{ $valKind := GetKind $field.MapValue.Kind -}}
-            encoded = {{ TrackDependency "encodeMap" }}(encoded, this._{{ LowercaseCamelCaseName $field.Name }}.size, {{ $keyKind }}, {{ $valKind }})
+            encoder.map(this._{{ LowercaseCamelCaseName $field.Name }}.size, {{ $keyKind }}, {{ $valKind }})
             this._{{ LowercaseCamelCaseName $field.Name }}.forEach((v, k) => {
             {{ $keyEncoder := GetLUTEncoder $field.MapKey.Kind -}}
             {{ if and (eq $keyEncoder "") (eq $field.MapKey.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
-            encoded = k.encode(encoded)
+            k.encode(encoder)
             {{else -}}
                 {{ if eq $field.MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                    encoded = {{ TrackDependency "encodeUint32" }}(encoded, k as number)
+                    encoder{{$keyEncoder}}(k as number)
                 {{else -}}
-                    encoded = {{$keyEncoder}}(encoded, k)
+                    encoder{{$keyEncoder}}(k)
                 {{end -}}
             {{end -}}
             {{ $valEncoder := GetLUTEncoder $field.MapValue.Kind -}}
             {{ if and (eq $valEncoder "") (eq $field.MapValue.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
-            encoded = v.encode(encoded)
+            v.encode(encoder)
             {{else -}}
                 {{ if eq $field.MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                    encoded = {{ TrackDependency "encodeUint32" }}(encoded, v as number)
+                    encoder{{$valEncoder}}(v as number)
                 {{else -}}
-                    encoded = {{$valEncoder}}(encoded, v)
+                    encoder{{$valEncoder}}(v)
                 {{end -}}
             {{end -}}
             })
         {{else -}}
-            encoded = this._{{ LowercaseCamelCaseName $field.Name }}.encode(encoded);
+            this._{{ LowercaseCamelCaseName $field.Name }}.encode(encoder)
         {{end -}}
     {{end -}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/typescript/structs.go b/v2/generator/typescript/structs.go
index 6b0eae5..843f26c 100644
--- a/v2/generator/typescript/structs.go
+++ b/v2/generator/typescript/structs.go
@@ -50,41 +50,41 @@ var (
 	}
 
 	encodeLUT = map[protoreflect.Kind]string{
-		protoreflect.BoolKind:     "encodeBoolean",
-		protoreflect.Int32Kind:    "encodeInt32",
-		protoreflect.Sint32Kind:   "encodeInt32",
-		protoreflect.Uint32Kind:   "encodeUint32",
-		protoreflect.Int64Kind:    "encodeInt64",
-		protoreflect.Sint64Kind:   "encodeInt64",
-		protoreflect.Uint64Kind:   "encodeUint64",
-		protoreflect.Sfixed32Kind: "encodeInt32",
-		protoreflect.Sfixed64Kind: "encodeInt64",
-		protoreflect.Fixed32Kind:  "encodeUint32",
-		protoreflect.Fixed64Kind:  "encodeUint64",
-		protoreflect.StringKind:   "encodeString",
-		protoreflect.FloatKind:    "encodeFloat32",
-		protoreflect.DoubleKind:   "encodeFloat64",
-		protoreflect.BytesKind:    "encodeBytes",
-		protoreflect.EnumKind:     "encodeUint32",
+		protoreflect.BoolKind:     ".boolean",
+		protoreflect.Int32Kind:    ".int32",
+		protoreflect.Sint32Kind:   ".int32",
+		protoreflect.Uint32Kind:   ".uint32",
+		protoreflect.Int64Kind:    ".int64",
+		protoreflect.Sint64Kind:   ".int64",
+		protoreflect.Uint64Kind:   ".uint64",
+		protoreflect.Sfixed32Kind: ".int32",
+		protoreflect.Sfixed64Kind: ".int64",
+		protoreflect.Fixed32Kind:  ".uint32",
+		protoreflect.Fixed64Kind:  ".uint64",
+		protoreflect.StringKind:   ".string",
+		protoreflect.FloatKind:    ".float32",
+		protoreflect.DoubleKind:   ".float64",
+		protoreflect.BytesKind:    ".uint8Array",
+		protoreflect.EnumKind:     ".uint32",
 	}
 
 	decodeLUT = map[protoreflect.Kind]string{
-		protoreflect.BoolKind:     "decodeBoolean",
-		protoreflect.Int32Kind:    "decodeInt32",
-		protoreflect.Sint32Kind:   "decodeInt32",
-		protoreflect.Uint32Kind:   "decodeUint32",
-		protoreflect.Int64Kind:    "decodeInt64",
-		protoreflect.Sint64Kind:   "decodeInt64",
-		protoreflect.Uint64Kind:   "decodeUint64",
-		protoreflect.Sfixed32Kind: "decodeInt32",
-		protoreflect.Sfixed64Kind: "decodeInt64",
-		protoreflect.Fixed32Kind:  "decodeUint32",
-		protoreflect.Fixed64Kind:  "decodeUint64",
-		protoreflect.StringKind:   "decodeString",
-		protoreflect.FloatKind:    "decodeFloat32",
-		protoreflect.DoubleKind:   "decodeFloat64",
-		protoreflect.BytesKind:    "decodeBytes",
-		protoreflect.EnumKind:     "decodeUint32",
+		protoreflect.BoolKind:     ".boolean",
+		protoreflect.Int32Kind:    ".int32",
+		protoreflect.Sint32Kind:   ".int32",
+		protoreflect.Uint32Kind:   ".uint32",
+		protoreflect.Int64Kind:    ".int64",
+		protoreflect.Sint64Kind:   ".int64",
+		protoreflect.Uint64Kind:   ".uint64",
+		protoreflect.Sfixed32Kind: ".int32",
+		protoreflect.Sfixed64Kind: ".int64",
+		protoreflect.Fixed32Kind:  ".uint32",
+		protoreflect.Fixed64Kind:  ".uint64",
+		protoreflect.StringKind:   ".string",
+		protoreflect.FloatKind:    ".float32",
+		protoreflect.DoubleKind:   ".float64",
+		protoreflect.BytesKind:    ".uint8Array",
+		protoreflect.EnumKind:     ".uint32",
 	}
 
 	kindLUT = map[protoreflect.Kind]string{
@@ -168,9 +168,9 @@ func getEncodingFields(trackDependency func(dep string) string, fields protorefl
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(encoded, this.%s as number)", encoder, utils.LowercaseCamelCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(this._%s as number)", encoder, utils.LowercaseCamelCaseName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(encoded, this.%s)", encoder, utils.LowercaseCamelCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(this._%s)", encoder, utils.LowercaseCamelCaseName(field.Name())))
 				}
 			}
 		}
@@ -237,7 +237,7 @@ func getKind(dependencies map[string]struct{}, kind protoreflect.Kind) string {
 func getLUTEncoder(trackDependency func(dep string) string, kind protoreflect.Kind) string {
 	encoder, ok := encodeLUT[kind]
 	if ok {
-		trackDependency(encoder)
+		trackDependency("Encoder")
 	}
 
 	return encoder
@@ -246,7 +246,7 @@ func getLUTEncoder(trackDependency func(dep string) string, kind protoreflect.Ki
 func getLUTDecoder(trackDependency func(dep string) string, kind protoreflect.Kind) string {
 	decoder, ok := decodeLUT[kind]
 	if ok {
-		trackDependency(decoder)
+		trackDependency("Decoder")
 	}
 
 	return decoder
diff --git a/v2/generator/typescript/templates/decode.templ b/v2/generator/typescript/templates/decode.templ
index 01cee76..c9fab19 100644
--- a/v2/generator/typescript/templates/decode.templ
+++ b/v2/generator/typescript/templates/decode.templ
@@ -1,29 +1,20 @@
 {{define "decode"}}
-    static decode(buf: Uint8Array): { buf: Uint8Array, value: {{ CamelCase .FullName }}} {
-        let decoded = buf
-        
+    static decode(decoder: {{ TrackDependency "Decoder" }}): {{ CamelCase .FullName }} {
         {{ $decoding := GetDecodingFields .Fields -}}
         {{ range $field := $decoding.SliceFields -}}
             {{ $val := FindValue $field }}
             {{ $kind := GetKind $field.Kind -}}
             {{ $decoder := GetLUTDecoder $field.Kind -}}
 
-            let {{ LowercaseCamelCaseName $field.Name }} = {{ TrackDependency "decodeArray" }}(decoded)
-            decoded = {{ LowercaseCamelCaseName $field.Name }}.buf
-            const {{ LowercaseCamelCaseName $field.Name }}Temp: { value: {{ $val }} } = { value: [] }
-            for (let i = 0; i < {{ LowercaseCamelCaseName $field.Name }}.size; i++) {
+            const {{ LowercaseCamelCaseName $field.Name }}Temp: {{ $val }} = []
+            for (let i = decoder.array({{ $kind }}); i > 0; i--) {
                 {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                    let elementEnum = {{ TrackDependency "decodeUint32" }}(decoded)
-                    const element = { value: elementEnum as {{ $val }} }
-                    decoded = element.bufEnum
+                    {{ LowercaseCamelCaseName $field.Name }}Temp.push(decoder{{ $decoder }}() as {{ TrimSuffix $val "[]" }})
                 {{ else if eq $field.Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
-                    let element = {{ TrimSuffix $val "[]" }}.decode(decoded)
-                    decoded = element.buf
+                    {{ LowercaseCamelCaseName $field.Name }}Temp.push({{ TrimSuffix $val "[]" }}.decode(decoder))
                 {{ else -}}
-                    let element = {{ $decoder }}(decoded)
-                    decoded = element.buf
-                {{end -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value.push(element.value)
+                    {{ LowercaseCamelCaseName $field.Name }}Temp.push(decoder{{ $decoder }}())
+                {{ end -}}
             }
         {{ end -}}
 
@@ -32,34 +23,30 @@
             {{ if $field.IsMap -}}
                 {{ template "decodeMap" $field -}}
             {{ else -}}
-                let {{ LowercaseCamelCaseName $field.Name }}Temp = {{ $val }}.decode(decoded)
-                decoded = {{ LowercaseCamelCaseName $field.Name }}Temp.buf
+                const {{ LowercaseCamelCaseName $field.Name }}Temp = {{ $val }}.decode(decoder)
             {{ end -}}
-        {{ end -}}
+        {{ end }}
 
         {{ range $field := $decoding.Other -}}
             {{ $val := FindValue $field }}
             {{ $decoder := GetLUTDecoder $field.Kind -}}
             {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                let {{ LowercaseCamelCaseName $field.Name }}U32 = {{ TrackDependency "decodeUint32" }}(decoded)
-                const {{ LowercaseCamelCaseName $field.Name }}Temp = { value: {{ LowercaseCamelCaseName $field.Name }}U32 as {{ $val }} }
-                decoded = {{ LowercaseCamelCaseName $field.Name }}U32.buf
+                const {{ LowercaseCamelCaseName $field.Name }}Temp = decoder{{ $decoder }}() as {{ $val }}
             {{ else -}}
-                let {{ LowercaseCamelCaseName $field.Name }}Temp = {{ $decoder }}(decoded)
-                decoded = {{ LowercaseCamelCaseName $field.Name }}Temp.buf
+                const {{ LowercaseCamelCaseName $field.Name }}Temp = decoder{{ $decoder }}()
             {{end -}}
         {{end}}
 
-        return { buf: decoded, value: new {{ CamelCase .FullName }}(
+        return new {{ CamelCase .FullName }}(
             {{ range $field := $decoding.Other -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value,
+                {{ LowercaseCamelCaseName $field.Name }}Temp,
             {{end -}}
             {{ range $field := $decoding.SliceFields -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value,
+                {{ LowercaseCamelCaseName $field.Name }}Temp,
             {{ end -}}
             {{ range $field := $decoding.MessageFields -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value,
+                {{ LowercaseCamelCaseName $field.Name }}Temp,
             {{ end -}}
-        )}
+        )
     }
 {{end}}
diff --git a/v2/generator/typescript/templates/decodeMap.templ b/v2/generator/typescript/templates/decodeMap.templ
index a370586..5de25b0 100644
--- a/v2/generator/typescript/templates/decodeMap.templ
+++ b/v2/generator/typescript/templates/decodeMap.templ
@@ -3,35 +3,27 @@
 {{ $mapValueValue := FindValue .MapValue }}
 {{ $keyDecoder := GetLUTDecoder .MapKey.Kind -}}
 {{ $valDecoder := GetLUTDecoder .MapValue.Kind -}}
+{{ $keyKind := GetKind .MapKey.Kind -}}
+{{ $valKind := GetKind .MapValue.Kind -}}
 
-let {{ LowercaseCamelCaseName .Name }} = {{ TrackDependency "decodeMap" }}(decoded)
-decoded = {{ LowercaseCamelCaseName .Name }}.buf
-const {{ LowercaseCamelCaseName .Name }}Temp: { value: Map<{{ $mapKeyValue }},{{ $mapValueValue }}> } = { value: new Map() }
-for (let i = 0; i < {{ LowercaseCamelCaseName .Name }}.size; i++) {
+const {{ LowercaseCamelCaseName .Name }}Temp: Map<{{ $mapKeyValue }}, {{ $mapValueValue }}> = new Map()
+for (let i = decoder.map({{ $keyKind }}, {{ $valKind }}); i > 0; i--) {
     {{ if eq .MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-        let keyEnum = {{ TrackDependency "decodeUint32" }}(decoded)
-        const key = { value: keyEnum as {{ $mapKeyValue }} }
-        decoded = keyEnum.buf
+        const key = decoder{{ $keyDecoder }}() as {{ $mapKeyValue }}
     {{ else if eq .MapKey.Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
-        let key = {{ TrimSuffix $mapKeyValue "[]" }}.decode(decoded)
-        decoded = key.buf
+        const key = {{ $mapKeyValue }}.decode(decoder)
     {{ else -}}
-        let key = {{ $keyDecoder }}(decoded)
-        decoded = key.buf
+        const key = decoder{{ $keyDecoder }}()
     {{end}}
 
     {{ if eq .MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-        let valueEnum = {{ TrackDependency "decodeUint32" }}(decoded)
-        const value = { value: valueEnum as {{ $mapValueValue }} }
-        decoded = valueEnum.buf
+        const value = decoder{{ $valDecoder }}() as {{ $mapValueValue }}
     {{ else if eq .MapValue.Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
-        let value = {{ TrimSuffix $mapValueValue "[]" }}.decode(decoded)
-        decoded = value.buf
+        const value = {{ $mapValueValue }}.decode(decoder)
     {{ else -}}
-        let value = {{ $valDecoder }}(decoded)
-        decoded = value.buf
+        const value = decoder{{ $valDecoder }}()
     {{end}}
 
-    {{ LowercaseCamelCaseName .Name }}.value.set(key, value)
+    {{ LowercaseCamelCaseName .Name }}Temp.set(key, value)
 }
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/typescript/templates/encode.templ b/v2/generator/typescript/templates/encode.templ
index 6459655..d8bdddc 100644
--- a/v2/generator/typescript/templates/encode.templ
+++ b/v2/generator/typescript/templates/encode.templ
@@ -1,11 +1,9 @@
 {{define "encode"}}
-    encode(buf: Uint8Array): Uint8Array {
-        let encoded = buf
-        
+    encode(encoder: {{ TrackDependency "Encoder" }}): {{ TrackDependency "Encoder" }} {
         {{ $encoding := GetEncodingFields .Fields -}}
 
         {{ range $val := $encoding.Values}}
-        encoded = {{ $val -}}
+        encoder{{ $val -}}
         {{end }}
 
         {{ if $encoding.SliceFields -}}
@@ -15,7 +13,7 @@
             {{template "encodeMessages" $encoding -}}
         {{end}}
         
-        return encoded
+        return encoder
     }
 {{end}}
 
@@ -24,14 +22,14 @@
         {{ $encoder := GetLUTEncoder $field.Kind -}}
 
         {{ if and (eq $encoder "") (eq $field.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
-        encoded = {{ TrackDependency "encodeArray" }}(encoded, this._{{ LowercaseCamelCaseName $field.Name}}.length, Kind.Any)
+        encoder.array(this._{{ LowercaseCamelCaseName $field.Name}}.length, {{ GetKind $field.Kind }})
         this._{{ LowercaseCamelCaseName $field.Name}}.forEach((field) => {
-            encoded = field.encode(encoded)
+            field.encode(encoder)
         })
         {{else -}}
-        encoded = {{ TrackDependency "encodeArray" }}(this._{{ LowercaseCamelCaseName $field.Name}}.length, {{ GetKindLUT $field.Kind }})
+        encoder.array(this._{{ LowercaseCamelCaseName $field.Name}}.length, {{ GetKindLUT $field.Kind }})
         this._{{ LowercaseCamelCaseName $field.Name}}.forEach((field) => {
-            encoded = {{$encoder}}(encoded, field)
+            encoder{{$encoder}}(field)
         })
         {{end -}}
     {{end -}}
@@ -43,31 +41,31 @@
         {{ if $field.IsMap -}}
             {{ $keyKind := GetKind $field.MapKey.Kind -}}
             {{ $valKind := GetKind $field.MapValue.Kind -}}
-            encoded = {{ TrackDependency "encodeMap" }}(encoded, this._{{ LowercaseCamelCaseName $field.Name }}.size, {{ $keyKind }}, {{ $valKind }})
+            encoder.map(this._{{ LowercaseCamelCaseName $field.Name }}.size, {{ $keyKind }}, {{ $valKind }})
             this._{{ LowercaseCamelCaseName $field.Name }}.forEach((v, k) => {
             {{ $keyEncoder := GetLUTEncoder $field.MapKey.Kind -}}
             {{ if and (eq $keyEncoder "") (eq $field.MapKey.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
-            encoded = k.encode(encoded)
+            k.encode(encoder)
             {{else -}}
                 {{ if eq $field.MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                    encoded = {{ TrackDependency "encodeUint32" }}(encoded, k as number)
+                    encoder{{$keyEncoder}}(k as number)
                 {{else -}}
-                    encoded = {{$keyEncoder}}(encoded, k)
+                    encoder{{$keyEncoder}}(k)
                 {{end -}}
             {{end -}}
             {{ $valEncoder := GetLUTEncoder $field.MapValue.Kind -}}
             {{ if and (eq $valEncoder "") (eq $field.MapValue.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
-            encoded = v.encode(encoded)
+            v.encode(encoder)
             {{else -}}
                 {{ if eq $field.MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                    encoded = {{ TrackDependency "encodeUint32" }}(encoded, v as number)
+                    encoder{{$valEncoder}}(v as number)
                 {{else -}}
-                    encoded = {{$valEncoder}}(encoded, v)
+                    encoder{{$valEncoder}}(v)
                 {{end -}}
             {{end -}}
             })
         {{else -}}
-            encoded = this._{{ LowercaseCamelCaseName $field.Name }}.encode(encoded);
+            this._{{ LowercaseCamelCaseName $field.Name }}.encode(encoder)
         {{end -}}
     {{end -}}
 {{end}}
\ No newline at end of file
-- 
2.43.0


From 1e70f5e04f7694a8b352034fa6aaecae14eddc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:14 +0000
Subject: [PATCH 45/53] fix: generated TypeScript code decodes fields in
 another order than it encodes and constructs

---
 generator/typescript/templates/decode.templ   | 30 ++++++++-----------
 .../typescript/templates/decode.templ         | 30 ++++++++-----------
 2 files changed, 24 insertions(+), 36 deletions(-)

diff --git a/generator/typescript/templates/decode.templ b/generator/typescript/templates/decode.templ
index c9fab19..eb411e5 100644
--- a/generator/typescript/templates/decode.templ
+++ b/generator/typescript/templates/decode.templ
@@ -1,6 +1,16 @@
 {{define "decode"}}
     static decode(decoder: {{ TrackDependency "Decoder" }}): {{ CamelCase .FullName }} {
         {{ $decoding := GetDecodingFields .Fields -}}
+        {{ range $field := $decoding.Other -}}
+            {{ $val := FindValue $field }}
+            {{ $decoder := GetLUTDecoder $field.Kind -}}
+            {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
+                const {{ LowercaseCamelCaseName $field.Name }}Temp = decoder{{ $decoder }}() as {{ $val }}
+            {{ else -}}
+                const {{ LowercaseCamelCaseName $field.Name }}Temp = decoder{{ $decoder }}()
+            {{end -}}
+        {{end}}
+
         {{ range $field := $decoding.SliceFields -}}
             {{ $val := FindValue $field }}
             {{ $kind := GetKind $field.Kind -}}
@@ -27,25 +37,9 @@
             {{ end -}}
         {{ end }}
 
-        {{ range $field := $decoding.Other -}}
-            {{ $val := FindValue $field }}
-            {{ $decoder := GetLUTDecoder $field.Kind -}}
-            {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                const {{ LowercaseCamelCaseName $field.Name }}Temp = decoder{{ $decoder }}() as {{ $val }}
-            {{ else -}}
-                const {{ LowercaseCamelCaseName $field.Name }}Temp = decoder{{ $decoder }}()
-            {{end -}}
-        {{end}}
-
         return new {{ CamelCase .FullName }}(
-            {{ range $field := $decoding.Other -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp,
-            {{end -}}
-            {{ range $field := $decoding.SliceFields -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp,
-            {{ end -}}
-            {{ range $field := $decoding.MessageFields -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp,
+            {{ range $i, $v := (MakeIterable $.Fields.Len) -}}
+                {{ LowercaseCamelCaseName ($.Fields.Get $i).Name }}Temp,
             {{ end -}}
         )
     }
diff --git a/v2/generator/typescript/templates/decode.templ b/v2/generator/typescript/templates/decode.templ
index c9fab19..eb411e5 100644
--- a/v2/generator/typescript/templates/decode.templ
+++ b/v2/generator/typescript/templates/decode.templ
@@ -1,6 +1,16 @@
 {{define "decode"}}
     static decode(decoder: {{ TrackDependency "Decoder" }}): {{ CamelCase .FullName }} {
         {{ $decoding := GetDecodingFields .Fields -}}
+        {{ range $field := $decoding.Other -}}
+            {{ $val := FindValue $field }}
+            {{ $decoder := GetLUTDecoder $field.Kind -}}
+            {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
+                const {{ LowercaseCamelCaseName $field.Name }}Temp = decoder{{ $decoder }}() as {{ $val }}
+            {{ else -}}
+                const {{ LowercaseCamelCaseName $field.Name }}Temp = decoder{{ $decoder }}()
+            {{end -}}
+        {{end}}
+
         {{ range $field := $decoding.SliceFields -}}
             {{ $val := FindValue $field }}
             {{ $kind := GetKind $field.Kind -}}
@@ -27,25 +37,9 @@
             {{ end -}}
         {{ end }}
 
-        {{ range $field := $decoding.Other -}}
-            {{ $val := FindValue $field }}
-            {{ $decoder := GetLUTDecoder $field.Kind -}}
-            {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                const {{ LowercaseCamelCaseName $field.Name }}Temp = decoder{{ $decoder }}() as {{ $val }}
-            {{ else -}}
-                const {{ LowercaseCamelCaseName $field.Name }}Temp = decoder{{ $decoder }}()
-            {{end -}}
-        {{end}}
-
         return new {{ CamelCase .FullName }}(
-            {{ range $field := $decoding.Other -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp,
-            {{end -}}
-            {{ range $field := $decoding.SliceFields -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp,
-            {{ end -}}
-            {{ range $field := $decoding.MessageFields -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp,
+            {{ range $i, $v := (MakeIterable $.Fields.Len) -}}
+                {{ LowercaseCamelCaseName ($.Fields.Get $i).Name }}Temp,
             {{ end -}}
         )
     }
-- 
2.43.0


From d58675b15f2d387626212a22b89636d904878dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:14 +0000
Subject: [PATCH 46/53] fix: generated TypeScript code names kinds the library
 does not have

---
 generator/typescript/structs.go    | 24 ++++++++++++------------
 v2/generator/typescript/structs.go | 24 ++++++++++++------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/generator/typescript/structs.go b/generator/typescript/structs.go
index ccdd7d9..e957d4b 100644
--- a/generator/typescript/structs.go
+++ b/generator/typescript/structs.go
@@ -88,22 +88,22 @@ var (
 	}
 
 	kindLUT = map[protoreflect.Kind]string{
-		protoreflect.BoolKind:     "Kind.Bool",
+		protoreflect.BoolKind:     "Kind.Boolean",
 		protoreflect.Int32Kind:    "Kind.Int32",
 		protoreflect.Sint32Kind:   "Kind.Int32",
-		protoreflect.Uint32Kind:   "Kind.U32",
-		protoreflect.Int64Kind:    "Kind.I64",
-		protoreflect.Sint64Kind:   "Kind.I64",
-		protoreflect.Uint64Kind:   "Kind.U64",
+		protoreflect.Uint32Kind:   "Kind.Uint32",
+		protoreflect.Int64Kind:    "Kind.Int64",
+		protoreflect.Sint64Kind:   "Kind.Int64",
+		protoreflect.Uint64Kind:   "Kind.Uint64",
 		protoreflect.Sfixed32Kind: "Kind.Int32",
-		protoreflect.Sfixed64Kind: "Kind.I64",
-		protoreflect.Fixed32Kind:  "Kind.U32",
-		protoreflect.Fixed64Kind:  "Kind.U64",
+		protoreflect.Sfixed64Kind: "Kind.Int64",
+		protoreflect.Fixed32Kind:  "Kind.Uint32",
+		protoreflect.Fixed64Kind:  "Kind.Uint64",
 		protoreflect.StringKind:   "Kind.String",
-		protoreflect.FloatKind:    "Kind.F32",
-		protoreflect.DoubleKind:   "Kind.F64",
-		protoreflect.BytesKind:    "Kind.Bytes",
-		protoreflect.EnumKind:     "Kind.U32",
+		protoreflect.FloatKind:    "Kind.Float32",
+		protoreflect.DoubleKind:   "Kind.Float64",
+		protoreflect.BytesKind:    "Kind.Uint8Array",
+		protoreflect.EnumKind:     "Kind.Uint32",
 	}
 )
 
diff --git a/v2/generator/typescript/structs.go b/v2/generator/typescript/structs.go
index 843f26c..8ece1bb 100644
--- a/v2/generator/typescript/structs.go
+++ b/v2/generator/typescript/structs.go
@@ -88,22 +88,22 @@ var (
 	}
 
 	kindLUT = map[protoreflect.Kind]string{
-		protoreflect.BoolKind:     "Kind.Bool",
+		protoreflect.BoolKind:     "Kind.Boolean",
 		protoreflect.Int32Kind:    "Kind.Int32",
 		protoreflect.Sint32Kind:   "Kind.Int32",
-		protoreflect.Uint32Kind:   "Kind.U32",
-		protoreflect.Int64Kind:    "Kind.I64",
-		protoreflect.Sint64Kind:   "Kind.I64",
-		protoreflect.Uint64Kind:   "Kind.U64",
+		protoreflect.Uint32Kind:   "Kind.Uint32",
+		protoreflect.Int64Kind:    "Kind.Int64",
+		protoreflect.Sint64Kind:   "Kind.Int64",
+		protoreflect.Uint64Kind:   "Kind.Uint64",
 		protoreflect.Sfixed32Kind: "Kind.Int32",
-		protoreflect.Sfixed64Kind: "Kind.I64",
-		protoreflect.Fixed32Kind:  "Kind.U32",
-		protoreflect.Fixed64Kind:  "Kind.U64",
+		protoreflect.Sfixed64Kind: "Kind.Int64",
+		protoreflect.Fixed32Kind:  "Kind.Uint32",
+		protoreflect.Fixed64Kind:  "Kind.Uint64",
 		protoreflect.StringKind:   "Kind.String",
-		protoreflect.FloatKind:    "Kind.F32",
-		protoreflect.DoubleKind:   "Kind.F64",
-		protoreflect.BytesKind:    "Kind.Bytes",
-		protoreflect.EnumKind:     "Kind.U32",
+		protoreflect.FloatKind:    "Kind.Float32",
+		protoreflect.DoubleKind:   "Kind.Float64",
+		protoreflect.BytesKind:    "Kind.Uint8Array",
+		protoreflect.EnumKind:     "Kind.Uint32",
 	}
 )
 
-- 
2.43.0


From ba7bb71b0757aec5af90c88d503a825fc50c7c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:14 +0000
Subject: [PATCH 47/53] fix: generated TypeScript code holds 64-bit integers as
 numbers, which the library rejects

---
 generator/typescript/structs.go    | 10 +++++-----
 v2/generator/typescript/structs.go | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/generator/typescript/structs.go b/generator/typescript/structs.go
index e957d4b..06e3f3c 100644
--- a/generator/typescript/structs.go
+++ b/generator/typescript/structs.go
@@ -36,13 +36,13 @@ var (
 		protoreflect.Int32Kind:    "number",
 		protoreflect.Sint32Kind:   "number",
 		protoreflect.Uint32Kind:   "number",
-		protoreflect.Int64Kind:    "number",
-		protoreflect.Sint64Kind:   "number",
-		protoreflect.Uint64Kind:   "number",
+		protoreflect.Int64Kind:    "bigint",
+		protoreflect.Sint64Kind:   "bigint",
+		protoreflect.Uint64Kind:   "bigint",
 		protoreflect.Sfixed32Kind: "number",
-		protoreflect.Sfixed64Kind: "number",
+		protoreflect.Sfixed64Kind: "bigint",
 		protoreflect.Fixed32Kind:  "number",
-		protoreflect.Fixed64Kind:  "number",
+		protoreflect.Fixed64Kind:  "bigint",
 		protoreflect.FloatKind:    "number",
 		protoreflect.DoubleKind:   "number",
 		protoreflect.StringKind:   "string",
diff --git a/v2/generator/typescript/structs.go b/v2/generator/typescript/structs.go
index 8ece1bb..1780a8c 100644
--- a/v2/generator/typescript/structs.go
+++ b/v2/generator/typescript/structs.go
@@ -36,13 +36,13 @@ var (
 		protoreflect.Int32Kind:    "number",
 		protoreflect.Sint32Kind:   "number",
 		protoreflect.Uint32Kind:   "number",
-		protoreflect.Int64Kind:    "number",
-		protoreflect.Sint64Kind:   "number",
-		protoreflect.Uint64Kind:   "number",
+		protoreflect.Int64Kind:    "bigint",
+		protoreflect.Sint64Kind:   "bigint",
+		protoreflect.Uint64Kind:   "bigint",
 		protoreflect.Sfixed32Kind: "number",
-		protoreflect.Sfixed64Kind: "number",
+		protoreflect.Sfixed64Kind: "bigint",
 		protoreflect.Fixed32Kind:  "number",
-		protoreflect.Fixed64Kind:  "number",
+		protoreflect.Fixed64Kind:  "bigint",
 		protoreflect.FloatKind:    "number",
 		protoreflect.DoubleKind:   "number",
 		protoreflect.StringKind:   "string",
-- 
2.43.0


From 94b65d9da422d0a1fd994240415cf91c6ea5b532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:14 +0000
Subject: [PATCH 48/53] fix: generated TypeScript code misses the enums of
 nested messages and exports none

---
 generator/typescript/templates/enums.templ       | 2 +-
 generator/typescript/templates/messages.templ    | 4 ----
 generator/typescript/templates/structs.templ     | 4 ++++
 v2/generator/typescript/templates/enums.templ    | 2 +-
 v2/generator/typescript/templates/messages.templ | 4 ----
 v2/generator/typescript/templates/structs.templ  | 4 ++++
 6 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/generator/typescript/templates/enums.templ b/generator/typescript/templates/enums.templ
index b9a6b00..52e6ac2 100644
--- a/generator/typescript/templates/enums.templ
+++ b/generator/typescript/templates/enums.templ
@@ -7,7 +7,7 @@
 
 {{define "enum"}}
 {{ $enumName := (CamelCaseFullName $.FullName) -}}
-enum {{ $enumName }} {
+export enum {{ $enumName }} {
     {{range $i, $v := (MakeIterable $.Values.Len) -}}
         {{ $val := ($.Values.Get $i) -}}
         {{$val.Name}} = {{ $i }},
diff --git a/generator/typescript/templates/messages.templ b/generator/typescript/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/generator/typescript/templates/messages.templ
+++ b/generator/typescript/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/generator/typescript/templates/structs.templ b/generator/typescript/templates/structs.templ
index f954fda..a3ec528 100644
--- a/generator/typescript/templates/structs.templ
+++ b/generator/typescript/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) -}}
+        {{ $enum := ($.Enums.Get $i) }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/v2/generator/typescript/templates/enums.templ b/v2/generator/typescript/templates/enums.templ
index b9a6b00..52e6ac2 100644
--- a/v2/generator/typescript/templates/enums.templ
+++ b/v2/generator/typescript/templates/enums.templ
@@ -7,7 +7,7 @@
 
 {{define "enum"}}
 {{ $enumName := (CamelCaseFullName $.FullName) -}}
-enum {{ $enumName }} {
+export enum {{ $enumName }} {
     {{range $i, $v := (MakeIterable $.Values.Len) -}}
         {{ $val := ($.Values.Get $i) -}}
         {{$val.Name}} = {{ $i }},
diff --git a/v2/generator/typescript/templates/messages.templ b/v2/generator/typescript/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/v2/generator/typescript/templates/messages.templ
+++ b/v2/generator/typescript/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/typescript/templates/structs.templ b/v2/generator/typescript/templates/structs.templ
index f954fda..a3ec528 100644
--- a/v2/generator/typescript/templates/structs.templ
+++ b/v2/generator/typescript/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) -}}
+        {{ $enum := ($.Enums.Get $i) }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
-- 
2.43.0


From aeef707afeac2f8896dfc61ebf8f00ffef844b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:14 +0000
Subject: [PATCH 49/53] fix: generated TypeScript code for fields named like a
 keyword or a generated method does not compile

---
 generator/typescript/generator.go               |  1 +
 generator/typescript/structs.go                 | 11 +++++++++++
 generator/typescript/templates/structs.templ    | 10 +++++-----
 v2/generator/typescript/generator.go            |  1 +
 v2/generator/typescript/structs.go              | 11 +++++++++++
 v2/generator/typescript/templates/structs.templ | 10 +++++-----
 6 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/generator/typescript/generator.go b/generator/typescript/generator.go
index 3a2ae7c..d9ea54f 100644
--- a/generator/typescript/generator.go
+++ b/generator/typescript/generator.go
@@ -52,6 +52,7 @@ func New() *Generator {
 		"FirstLowerCase":     utils.FirstLowerCase,
 		"FirstLowerCaseName": utils.FirstLowerCaseName,
 		"FindValue":          findValue,
+		"AccessorName":       accessorName,
 		"GetKind": func(kind protoreflect.Kind) string {
 			return getKind(g.dependencies, kind)
 		},
diff --git a/generator/typescript/structs.go b/generator/typescript/structs.go
index 06e3f3c..4bc0808 100644
--- a/generator/typescript/structs.go
+++ b/generator/typescript/structs.go
@@ -107,6 +107,17 @@ var (
 	}
 )
 
+// accessorName returns the name of the accessors generated for the field called name;
+// it keeps clear of the other members of the generated class.
+func accessorName(name protoreflect.Name) string {
+	accessor := utils.LowercaseCamelCaseName(name)
+	switch accessor {
+	case "encode", "constructor":
+		return accessor + "_"
+	}
+	return accessor
+}
+
 func findValue(field protoreflect.FieldDescriptor) string {
 	if kind, ok := typeLUT[field.Kind()]; !ok {
 		switch field.Kind() {
diff --git a/generator/typescript/templates/structs.templ b/generator/typescript/templates/structs.templ
index a3ec528..88f84b1 100644
--- a/generator/typescript/templates/structs.templ
+++ b/generator/typescript/templates/structs.templ
@@ -14,12 +14,12 @@
         {{ range $i, $v := (MakeIterable $.Fields.Len) -}}
             {{ $field := $.Fields.Get $i -}}
             {{ $value := FindValue $field -}}
-            {{ LowercaseCamelCaseName $field.Name }}: {{ $value }},
+            _{{ LowercaseCamelCaseName $field.Name }}: {{ $value }},
         {{end -}}
         ) {
             {{ range $i, $v := (MakeIterable $.Fields.Len) -}}
                 {{ $field := $.Fields.Get $i -}}
-                this._{{ LowercaseCamelCaseName $field.Name }} = {{ LowercaseCamelCaseName $field.Name }}
+                this._{{ LowercaseCamelCaseName $field.Name }} = _{{ LowercaseCamelCaseName $field.Name }}
             {{end -}}
         }
 
@@ -28,12 +28,12 @@
             {{ $value := FindValue $field -}}
             private _{{ LowercaseCamelCaseName $field.Name }}: {{ $value }}
 
-            get {{ LowercaseCamelCaseName $field.Name }}(): {{ $value }} {
+            get {{ AccessorName $field.Name }}(): {{ $value }} {
                 return this._{{ LowercaseCamelCaseName $field.Name }}
             }
 
-            set {{ LowercaseCamelCaseName $field.Name }}({{ LowercaseCamelCaseName $field.Name }}: {{ $value }}) {
-                this._{{ LowercaseCamelCaseName $field.Name }} = {{ LowercaseCamelCaseName $field.Name }}
+            set {{ AccessorName $field.Name }}(value: {{ $value }}) {
+                this._{{ LowercaseCamelCaseName $field.Name }} = value
             }
             
         {{end -}}
diff --git a/v2/generator/typescript/generator.go b/v2/generator/typescript/generator.go
index 837655c..286b01a 100644
--- a/v2/generator/typescript/generator.go
+++ b/v2/generator/typescript/generator.go
@@ -52,6 +52,7 @@ func New() *Generator {
 		"FirstLowerCase":     utils.FirstLowerCase,
 		"FirstLowerCaseName": utils.FirstLowerCaseName,
 		"FindValue":          findValue,
+		"AccessorName":       accessorName,
 		"GetKind": func(kind protoreflect.Kind) string {
 			return getKind(g.dependencies, kind)
 		},
diff --git a/v2/generator/typescript/structs.go b/v2/generator/typescript/structs.go
index 1780a8c..9fed304 100644
--- a/v2/generator/typescript/structs.go
+++ b/v2/generator/typescript/structs.go
@@ -107,6 +107,17 @@ var (
 	}
 )
 
+// accessorName returns the name of the accessors generated for the field called name;
+// it keeps clear of the other members of the generated class.
+func accessorName(name protoreflect.Name) string {
+	accessor := utils.LowercaseCamelCaseName(name)
+	switch accessor {
+	case "encode", "constructor":
+		return accessor + "_"
+	}
+	return accessor
+}
+
 func findValue(field protoreflect.FieldDescriptor) string {
 	if kind, ok := typeLUT[field.Kind()]; !ok {
 		switch field.Kind() {
diff --git a/v2/generator/typescript/templates/structs.templ b/v2/generator/typescript/templates/structs.templ
index a3ec528..88f84b1 100644
--- a/v2/generator/typescript/templates/structs.templ
+++ b/v2/generator/typescript/templates/structs.templ
@@ -14,12 +14,12 @@
         {{ range $i, $v := (MakeIterable $.Fields.Len) -}}
             {{ $field := $.Fields.Get $i -}}
             {{ $value := FindValue $field -}}
-            {{ LowercaseCamelCaseName $field.Name }}: {{ $value }},
+            _{{ LowercaseCamelCaseName $field.Name }}: {{ $value }},
         {{end -}}
         ) {
             {{ range $i, $v := (MakeIterable $.Fields.Len) -}}
                 {{ $field := $.Fields.Get $i -}}
-                this._{{ LowercaseCamelCaseName $field.Name }} = {{ LowercaseCamelCaseName $field.Name }}
+                this._{{ LowercaseCamelCaseName $field.Name }} = _{{ LowercaseCamelCaseName $field.Name }}
             {{end -}}
         }
 
@@ -28,12 +28,12 @@
             {{ $value := FindValue $field -}}
             private _{{ LowercaseCamelCaseName $field.Name }}: {{ $value }}
 
-            get {{ LowercaseCamelCaseName $field.Name }}(): {{ $value }} {
+            get {{ AccessorName $field.Name }}(): {{ $value }} {
                 return this._{{ LowercaseCamelCaseName $field.Name }}
             }
 
-            set {{ LowercaseCamelCaseName $field.Name }}({{ LowercaseCamelCaseName $field.Name }}: {{ $value }}) {
-                this._{{ LowercaseCamelCaseName $field.Name }} = {{ LowercaseCamelCaseName $field.Name }}
+            set {{ AccessorName $field.Name }}(value: {{ $value }}) {
+                this._{{ LowercaseCamelCaseName $field.Name }} = value
             }
             
         {{end -}}
-- 
2.43.0


From de99b47866688601fa8b4379a1018ac1ab40a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:38 +0000
Subject: [PATCH 50/53] fix: names like _1 and _ become identifiers in
 generated code

CamelCase dropped the leading underscore and left something that is no
identifier: a field called _1 or _ made the Go generators emit code that does
not parse, and so did such messages and packages for all generators.
---
 utils/utils.go    | 3 +++
 v2/utils/utils.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index edadb04..0c5722f 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -70,6 +70,9 @@ func CamelCase(s string) string {
 			t = append(t, s[i])
 		}
 	}
+	if len(strings.Trim(string(t), "_")) == 0 || '0' <= t[0] && t[0] <= '9' {
+		return "X" + string(t) // t is not an identifier
+	}
 	return string(t)
 }
 
diff --git a/v2/utils/utils.go b/v2/utils/utils.go
index edadb04..0c5722f 100644
--- a/v2/utils/utils.go
+++ b/v2/utils/utils.go
@@ -70,6 +70,9 @@ func CamelCase(s string) string {
 			t = append(t, s[i])
 		}
 	}
+	if len(strings.Trim(string(t), "_")) == 0 || '0' <= t[0] && t[0] <= '9' {
+		return "X" + string(t) // t is not an identifier
+	}
 	return string(t)
 }
 
-- 
2.43.0


From a6d24404e8e4c62a8cc304d19cfb1782b217b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:38 +0000
Subject: [PATCH 51/53] fix: generated Go code for packages called like a Go
 keyword

A schema in package acme.type was generated into 'package type'; the Go package
name of the schema is used instead, as for schemas without a package.
---
 generator/golang/generator.go    | 3 ++-
 v2/generator/golang/generator.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index fa19a0e..000fe12 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -25,6 +25,7 @@ import (
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/pluginpb"
 
+	"go/token"
 	"text/template"
 )
 
@@ -98,7 +99,7 @@ func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.
 		genFile := plugin.NewGeneratedFile(FileName(f.GeneratedFilenamePrefix), f.GoImportPath)
 
 		packageName := string(f.Desc.Package().Name())
-		if packageName == "" {
+		if packageName == "" || packageName == "_" || token.IsKeyword(packageName) {
 			packageName = string(f.GoPackageName)
 		}
 
diff --git a/v2/generator/golang/generator.go b/v2/generator/golang/generator.go
index ccd0f45..7668f89 100644
--- a/v2/generator/golang/generator.go
+++ b/v2/generator/golang/generator.go
@@ -25,6 +25,7 @@ import (
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/pluginpb"
 
+	"go/token"
 	"text/template"
 )
 
@@ -97,7 +98,7 @@ func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.
 		genFile := plugin.NewGeneratedFile(FileName(f.GeneratedFilenamePrefix), f.GoImportPath)
 
 		packageName := string(f.Desc.Package().Name())
-		if packageName == "" {
+		if packageName == "" || packageName == "_" || token.IsKeyword(packageName) {
 			packageName = string(f.GoPackageName)
 		}
 
-- 
2.43.0


From 5ecec35ba8d614664ac0e513b60e095611852ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:38 +0000
Subject: [PATCH 52/53] fix: Rust enum variants called like a Rust keyword

Fields called type or match became raw identifiers, but enum constants were
emitted as they are, so the generated code did not parse.
---
 generator/rust/generator.go             |  1 +
 generator/rust/structs.go               | 24 ++++++++++++++++--------
 generator/rust/templates/enums.templ    |  2 +-
 v2/generator/rust/generator.go          |  1 +
 v2/generator/rust/structs.go            | 24 ++++++++++++++++--------
 v2/generator/rust/templates/enums.templ |  2 +-
 6 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/generator/rust/generator.go b/generator/rust/generator.go
index fbb91b9..3b351f1 100644
--- a/generator/rust/generator.go
+++ b/generator/rust/generator.go
@@ -70,6 +70,7 @@ func New() *Generator {
 		"GetKindLUT":         getKindLUT,
 		"SnakeCase":          utils.SnakeCase,
 		"SnakeCaseName":      fieldName,
+		"ConstantName":       constantName,
 		"CustomFields": func() string {
 			return g.CustomFields()
 		},
diff --git a/generator/rust/structs.go b/generator/rust/structs.go
index f870afd..370bf65 100644
--- a/generator/rust/structs.go
+++ b/generator/rust/structs.go
@@ -107,22 +107,30 @@ var (
 	}
 )
 
-// fieldName returns the name of the struct field generated for the field called name,
-// which must not be a Rust keyword.
+// fieldName returns the name of the struct field generated for the field called name.
 func fieldName(name protoreflect.Name) string {
-	field := utils.SnakeCaseName(name)
-	switch field {
+	return identifier(utils.SnakeCaseName(name))
+}
+
+// constantName returns the name of the enum variant generated for the constant called name.
+func constantName(name protoreflect.Name) string {
+	return identifier(string(name))
+}
+
+// identifier returns name, or something like it if name is a Rust keyword.
+func identifier(name string) string {
+	switch name {
 	case "abstract", "as", "async", "await", "become", "box", "break", "const",
 		"continue", "do", "dyn", "else", "enum", "extern", "false", "final",
 		"fn", "for", "gen", "if", "impl", "in", "let", "loop",
 		"macro", "match", "mod", "move", "mut", "override", "priv", "pub",
 		"ref", "return", "static", "struct", "trait", "true", "try", "type",
 		"typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield":
-		return "r#" + field
-	case "crate", "self", "super": // these cannot be raw identifiers
-		return field + "_"
+		return "r#" + name
+	case "Self", "_", "crate", "self", "super": // these cannot be raw identifiers
+		return name + "_"
 	}
-	return field
+	return name
 }
 
 func findValue(field protoreflect.FieldDescriptor) string {
diff --git a/generator/rust/templates/enums.templ b/generator/rust/templates/enums.templ
index 16b08ef..50d3283 100644
--- a/generator/rust/templates/enums.templ
+++ b/generator/rust/templates/enums.templ
@@ -12,7 +12,7 @@
 pub enum {{ $enumName }} {
     {{range $i, $v := (MakeIterable $.Values.Len) -}}
         {{ $val := ($.Values.Get $i) -}}
-        {{$val.Name}} = {{ $i }},
+        {{ConstantName $val.Name}} = {{ $i }},
     {{end -}}
 }
 {{end}}
diff --git a/v2/generator/rust/generator.go b/v2/generator/rust/generator.go
index e3a3683..9d5031b 100644
--- a/v2/generator/rust/generator.go
+++ b/v2/generator/rust/generator.go
@@ -70,6 +70,7 @@ func New() *Generator {
 		"GetKindLUT":         getKindLUT,
 		"SnakeCase":          utils.SnakeCase,
 		"SnakeCaseName":      fieldName,
+		"ConstantName":       constantName,
 		"CustomFields": func() string {
 			return g.CustomFields()
 		},
diff --git a/v2/generator/rust/structs.go b/v2/generator/rust/structs.go
index 2d1cb32..c6d6e58 100644
--- a/v2/generator/rust/structs.go
+++ b/v2/generator/rust/structs.go
@@ -107,22 +107,30 @@ var (
 	}
 )
 
-// fieldName returns the name of the struct field generated for the field called name,
-// which must not be a Rust keyword.
+// fieldName returns the name of the struct field generated for the field called name.
 func fieldName(name protoreflect.Name) string {
-	field := utils.SnakeCaseName(name)
-	switch field {
+	return identifier(utils.SnakeCaseName(name))
+}
+
+// constantName returns the name of the enum variant generated for the constant called name.
+func constantName(name protoreflect.Name) string {
+	return identifier(string(name))
+}
+
+// identifier returns name, or something like it if name is a Rust keyword.
+func identifier(name string) string {
+	switch name {
 	case "abstract", "as", "async", "await", "become", "box", "break", "const",
 		"continue", "do", "dyn", "else", "enum", "extern", "false", "final",
 		"fn", "for", "gen", "if", "impl", "in", "let", "loop",
 		"macro", "match", "mod", "move", "mut", "override", "priv", "pub",
 		"ref", "return", "static", "struct", "trait", "true", "try", "type",
 		"typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield":
-		return "r#" + field
-	case "crate", "self", "super": // these cannot be raw identifiers
-		return field + "_"
+		return "r#" + name
+	case "Self", "_", "crate", "self", "super": // these cannot be raw identifiers
+		return name + "_"
 	}
-	return field
+	return name
 }
 
 func findValue(field protoreflect.FieldDescriptor) string {
diff --git a/v2/generator/rust/templates/enums.templ b/v2/generator/rust/templates/enums.templ
index 16b08ef..50d3283 100644
--- a/v2/generator/rust/templates/enums.templ
+++ b/v2/generator/rust/templates/enums.templ
@@ -12,7 +12,7 @@
 pub enum {{ $enumName }} {
     {{range $i, $v := (MakeIterable $.Values.Len) -}}
         {{ $val := ($.Values.Get $i) -}}
-        {{$val.Name}} = {{ $i }},
+        {{ConstantName $val.Name}} = {{ $i }},
     {{end -}}
 }
 {{end}}
-- 
2.43.0


From 1d86aa71b1f35980c99807fc057831075fcf92b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:57 +0000
Subject: [PATCH 53/53] fix: Rust generator fails for messages and enums with
 long names

---
 generator/rust/generator.go    | 6 +++++-
 v2/generator/rust/generator.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/generator/rust/generator.go b/generator/rust/generator.go
index 3b351f1..b10aab5 100644
--- a/generator/rust/generator.go
+++ b/generator/rust/generator.go
@@ -28,6 +28,7 @@ import (
 	"bytes"
 	"flag"
 	"os/exec"
+	"regexp"
 	"text/template"
 )
 
@@ -39,6 +40,8 @@ const (
 	GeneratedFieldPrivacyCrate   = "crate"
 )
 
+var trailingBlanks = regexp.MustCompile(`(?m)[ \t]+$`)
+
 type Generator struct {
 	options      *protogen.Options
 	templ        *template.Template
@@ -160,7 +163,8 @@ func (g *Generator) ExecuteTemplate(
 	}
 
 	cmd := exec.Command("rustfmt")
-	cmd.Stdin = bytes.NewReader(buf.Bytes())
+	// rustfmt leaves code with long names as it is, and fails if lines of it end in blanks
+	cmd.Stdin = bytes.NewReader(trailingBlanks.ReplaceAll(buf.Bytes(), nil))
 	output, err := cmd.CombinedOutput()
 	if err != nil {
 		println(string(output))
diff --git a/v2/generator/rust/generator.go b/v2/generator/rust/generator.go
index 9d5031b..98c2cbb 100644
--- a/v2/generator/rust/generator.go
+++ b/v2/generator/rust/generator.go
@@ -28,6 +28,7 @@ import (
 	"bytes"
 	"flag"
 	"os/exec"
+	"regexp"
 	"text/template"
 )
 
@@ -39,6 +40,8 @@ const (
 	GeneratedFieldPrivacyCrate   = "crate"
 )
 
+var trailingBlanks = regexp.MustCompile(`(?m)[ \t]+$`)
+
 type Generator struct {
 	options      *protogen.Options
 	templ        *template.Template
@@ -160,7 +163,8 @@ func (g *Generator) ExecuteTemplate(
 	}
 
 	cmd := exec.Command("rustfmt")
-	cmd.Stdin = bytes.NewReader(buf.Bytes())
+	// rustfmt leaves code with long names as it is, and fails if lines of it end in blanks
+	cmd.Stdin = bytes.NewReader(trailingBlanks.ReplaceAll(buf.Bytes(), nil))
 	output, err := cmd.CombinedOutput()
 	if err != nil {
 		println(string(output))
-- 
2.43.0

