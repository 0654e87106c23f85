From c0c6bcd871179894dd69f2fc7cffaa4ebcb1c5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:57 +0000
Subject: [PATCH 01/20] fix: detect duplicate expanded attribute names in
 namespace-triplet mode

---
 src/lib/xmlparse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 4aaba1b..259d8a7 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -4516,11 +4516,13 @@ impl XML_ParserStruct {
                     /* Check hash table for duplicate of expanded name (uriName).
                     Derived from code in lookup(parser, HASH_TABLE *table, ...).
                      */
+                    let mut expandedLen: usize = 0;
                     let ret = self.m_tempPool.current_slice(|name| {
                         let hk = HashKey::from(name.as_ptr() as KEY);
                         if self.m_nsAtts.contains(&hk) {
                             return XML_Error::DUPLICATE_ATTRIBUTE;
                         }
+                        expandedLen = hk.0.len();
                         XML_Error::NONE
                     });
                     if ret != XML_Error::NONE {
@@ -4544,7 +4546,8 @@ impl XML_ParserStruct {
                     if ret != XML_Error::NONE { return ret; }
                     /* store expanded name in attribute list */
                     self.m_atts[i].name = self.m_tempPool.finish_string().as_ptr();
-                    let hk = HashKey::from(self.m_atts[i].name as KEY);
+                    /* the key is the expanded name without any appended prefix */
+                    let hk = HashKey(std::slice::from_raw_parts(self.m_atts[i].name, expandedLen));
                     self.m_nsAtts.insert(hk);
                     nPrefixes -= 1;
                     if nPrefixes == 0 && nXMLNSDeclarations == 0 {
-- 
2.43.0


From 913724389744fc0b6515dc9b9a93caf3d024ae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:57 +0000
Subject: [PATCH 02/20] fix: keep the unknown-encoding handler across
 XML_ParserReset

---
 src/lib/xmlparse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 259d8a7..d3fc6ae 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1858,7 +1858,12 @@ impl XML_ParserStruct {
         self.m_temp2Pool.clear();
         FREE!(self.m_protocolEncodingName);
         self.m_protocolEncodingName = ptr::null();
+        /* the unknownEncodingHandler survives a reset */
+        let unknownEncodingHandler = self.m_handlers.m_unknownEncodingHandler;
+        let unknownEncodingHandlerData = self.m_handlers.m_unknownEncodingHandlerData;
         self.init(encodingName);
+        self.m_handlers.m_unknownEncodingHandler = unknownEncodingHandler;
+        self.m_handlers.m_unknownEncodingHandlerData = unknownEncodingHandlerData;
         Rc::get_mut(&mut self.m_dtd).unwrap().reset();
         true
     }
-- 
2.43.0


From 382aa6f114241a06c30965eba276c0460e725a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:57 +0000
Subject: [PATCH 03/20] fix: do not parse resumed input a second time after
 XML_ResumeParser

---
 src/lib/xmlparse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index d3fc6ae..3d87097 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2947,11 +2947,14 @@ impl XML_ParserStruct {
             return XML_Status::ERROR;
         }
         self.m_parsingStatus.parsing = XML_Parsing::PARSING;
+        let mut start = self.m_buffer.as_ptr().add(self.m_bufferStart);
         self.m_errorCode = self.m_processor.expect("non-null function pointer")(
             self,
             self.m_buffer[self.m_bufferStart..self.m_parseEndIdx].into(),
-            &mut (&self.m_buffer[self.m_bufferStart] as *const _),
+            &mut start,
         );
+        // convert in-out parameter `start` from pointer back to index
+        self.m_bufferStart = start.wrapping_offset_from(self.m_buffer.as_ptr()) as usize;
         if self.m_errorCode != XML_Error::NONE {
             self.m_eventEndPtr = self.m_eventPtr;
             self.m_processor = Some(errorProcessor as Processor);
-- 
2.43.0


From d089783ce187e1477712f4740e04fdb85476be0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:57 +0000
Subject: [PATCH 04/20] fix: report the byte index of an event at the end of a
 full buffer

---
 src/lib/xmlparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 3d87097..59d8b62 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -850,7 +850,7 @@ impl XML_ParserStruct {
     // TODO(SJC): add a better err type
     fn buffer_index(&self, p: *const c_char) -> Result<usize, ()> {
         if p < self.m_buffer.as_ptr()
-            || p >= self.m_buffer.as_ptr().wrapping_add(self.m_buffer.len())
+            || p > self.m_buffer.as_ptr().wrapping_add(self.m_buffer.len())
         {
             Err(())
         } else {
-- 
2.43.0


From 078f35f6eee2d9405b5a09fe1bc8ea916f8ac16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:57 +0000
Subject: [PATCH 05/20] fix: line and column queries between XML_GetBuffer and
 XML_ParseBuffer do not panic

---
 src/lib/xmlparse.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 59d8b62..6f096bc 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3109,7 +3109,8 @@ pub unsafe extern "C" fn XML_GetCurrentLineNumber(mut parser: XML_Parser) -> XML
     if parser.is_null() {
         return 0;
     }
-    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap());
+    /* there is no event to measure from when the position is unset */
+    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap_or(0));
     if !(*parser).m_eventPtr.is_null() && (*parser).m_eventPtr >= positionPtr {
         (*(*parser).m_encoding).updatePosition(
             ExpatBufRef::new(
@@ -3129,7 +3130,8 @@ pub unsafe extern "C" fn XML_GetCurrentColumnNumber(mut parser: XML_Parser) -> X
     if parser.is_null() {
         return 0;
     }
-    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap());
+    /* there is no event to measure from when the position is unset */
+    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap_or(0));
     if !(*parser).m_eventPtr.is_null() && (*parser).m_eventPtr >= positionPtr {
         (*(*parser).m_encoding).updatePosition(
             ExpatBufRef::new(
-- 
2.43.0


From 50da5cc596f286dcfaaa0f967d8ad78e49f8e683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:57 +0000
Subject: [PATCH 06/20] fix: reject a negative length in XML_ParseBuffer

---
 src/lib/xmlparse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 6f096bc..ff53046 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2761,6 +2761,10 @@ pub unsafe extern "C" fn XML_ParseBuffer(
     if parser.is_null() {
         return XML_Status::ERROR;
     }
+    if len < 0 {
+        (*parser).m_errorCode = XML_Error::INVALID_ARGUMENT;
+        return XML_Status::ERROR;
+    }
 
     (*parser).parseBuffer(len, isFinal)
 }
-- 
2.43.0


From 3cbc066d479447f2aed97519e04616cc08ef3b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:29 +0000
Subject: [PATCH 07/20] fix: do not hold the DTD string pool borrowed while the
 skipped-entity handler runs

---
 src/lib/xmlparse.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index ff53046..05a70d7 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3691,7 +3691,7 @@ impl XML_ParserStruct {
                             reportDefault(self, enc_type, buf.with_end(next));
                         }
                     } else {
-                        let successful = self.m_dtd.pool.store_c_string(
+                        let successful = self.m_tempPool.store_c_string(
                             enc,
                             buf
                                 .inc_start((*enc).minBytesPerChar() as isize)
@@ -3701,7 +3701,7 @@ impl XML_ParserStruct {
                         if !successful {
                             return XML_Error::NO_MEMORY;
                         };
-                        let entity = self.m_dtd.pool.current_slice(|name| {
+                        let entity = self.m_tempPool.current_slice(|name| {
                             let mut dtd_tables = self.m_dtd.tables.borrow_mut();
                             hash_lookup!(dtd_tables.generalEntities, name.as_ptr())
                         });
@@ -3715,7 +3715,7 @@ impl XML_ParserStruct {
                         // into them to avoid a use-after-free when the 2nd branch uses the
                         // `name` pointer again.
                         if !self.m_dtd.hasParamEntityRefs.get() || self.m_dtd.standalone.get() {
-                            self.m_dtd.pool.clear_current();
+                            self.m_tempPool.clear_current();
 
                             if entity.is_null() {
                                 return XML_Error::UNDEFINED_ENTITY;
@@ -3725,11 +3725,11 @@ impl XML_ParserStruct {
                                 }
                             }
                         } else if entity.is_null() {
-                            let skippedHandlerRan = self.m_dtd.pool.current_slice(|name| {
+                            let skippedHandlerRan = self.m_tempPool.current_slice(|name| {
                                 self.m_handlers.skippedEntity(name.as_ptr(), 0)
                             });
 
-                            self.m_dtd.pool.clear_current();
+                            self.m_tempPool.clear_current();
 
                             if !skippedHandlerRan && self.m_handlers.hasDefault() {
                                 if !cfg!(feature = "mozilla") {
@@ -3742,7 +3742,7 @@ impl XML_ParserStruct {
                                 skipHandlers = true;
                             }
                         } else {
-                            self.m_dtd.pool.clear_current();
+                            self.m_tempPool.clear_current();
                         }
 
                         if !skipHandlers {
@@ -6525,7 +6525,7 @@ impl XML_ParserStruct {
                             return XML_Error::NOT_STANDALONE;
                         }
                     } else {
-                        let successful = self.m_dtd.pool.store_c_string(
+                        let successful = self.m_tempPool.store_c_string(
                             enc,
                             buf
                                 .inc_start((*enc).minBytesPerChar() as isize)
@@ -6535,7 +6535,7 @@ impl XML_ParserStruct {
                         if !successful {
                             return XML_Error::NO_MEMORY;
                         }
-                        let mut entity = self.m_dtd.pool.current_slice(|name| {
+                        let mut entity = self.m_tempPool.current_slice(|name| {
                             let mut dtd_tables = self.m_dtd.tables.borrow_mut();
                             hash_lookup!(dtd_tables.paramEntities, name.as_ptr())
                         });
@@ -6554,7 +6554,7 @@ impl XML_ParserStruct {
                                 !self.m_dtd.hasParamEntityRefs.get()
                             })
                         {
-                            self.m_dtd.pool.clear_current();
+                            self.m_tempPool.clear_current();
                             if entity.is_null() {
                                 return XML_Error::UNDEFINED_ENTITY;
                             } else {
@@ -6596,14 +6596,14 @@ impl XML_ParserStruct {
                             if role == super::xmlrole::XML_ROLE::PARAM_ENTITY_REF
                                 && self.m_handlers.hasSkippedEntity()
                             {
-                                self.m_dtd.pool.current_slice(|name| {
+                                self.m_tempPool.current_slice(|name| {
                                     self.m_handlers.skippedEntity(name.as_ptr(), 1);
                                 });
                                 handleDefault = false;
                             }
-                            self.m_dtd.pool.clear_current();
+                            self.m_tempPool.clear_current();
                         } else {
-                            self.m_dtd.pool.clear_current();
+                            self.m_tempPool.clear_current();
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
                                 return r;
                             }
-- 
2.43.0


From 21f488401794e218187df5e5f7e71238e2024001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:11 +0000
Subject: [PATCH 08/20] fix: pass distinct version and encoding strings to the
 XML declaration handler

---
 src/lib/xmlparse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 05a70d7..0636dfe 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5282,7 +5282,7 @@ impl XML_ParserStruct {
                     return XML_Error::NO_MEMORY;
                 }
 
-                storedEncName = self.m_temp2Pool.current_start();
+                storedEncName = self.m_temp2Pool.finish_string().as_ptr();
             }
             if let Some(version_buf) = version_buf {
                 let successful = self.m_temp2Pool.store_c_string(
@@ -5293,7 +5293,7 @@ impl XML_ParserStruct {
                     return XML_Error::NO_MEMORY;
                 }
 
-                storedversion = self.m_temp2Pool.current_start();
+                storedversion = self.m_temp2Pool.finish_string().as_ptr();
             }
             self.m_handlers.xmlDecl(
                 storedversion,
@@ -5332,7 +5332,7 @@ impl XML_ParserStruct {
                         return XML_Error::NO_MEMORY;
                     }
 
-                    storedEncName = self.m_temp2Pool.current_start();
+                    storedEncName = self.m_temp2Pool.finish_string().as_ptr();
                 };
                 result = self.m_handlers.handleUnknownEncoding(storedEncName, self.m_ns, &mut self.m_encoding);
                 self.m_temp2Pool.clear();
-- 
2.43.0


From dfc49dbc689aefda3871b80da7421fe20a3aa34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:11 +0000
Subject: [PATCH 09/20] fix: end the version of the XML declaration at its
 closing quote

---
 src/lib/xmltok.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index aaf97f9..6c6ab34 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -3013,7 +3013,10 @@ fn doParseXmlDecl<'a>(
             return 0;
         }
     } else {
-        *versionBuf = val_buf;
+        *versionBuf = val_buf.map(|val| {
+            val.with_end(pseudo_ptr)
+                .dec_end((*enc).minBytesPerChar() as usize)
+        });
         #[cfg(feature = "mozilla")]
         {
             if !(*enc).nameMatchesAscii(val_buf
-- 
2.43.0


From 32c00b15efb8e877a80fb5587a37b925d4002458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:26 +0000
Subject: [PATCH 10/20] fix: report malformed XML declarations at the offending
 character

---
 src/lib/xmltok.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 6c6ab34..04217ac 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -3062,7 +3062,7 @@ fn doParseXmlDecl<'a>(
         ) };
         let mut pseudo_ptr = buf.as_ptr();
         if parsePseudoAttribute(enc, buf, &mut name, &mut val_buf, &mut pseudo_ptr) == 0 {
-            *badPtr = buf.as_ptr();
+            *badPtr = pseudo_ptr;
             return 0;
         }
         buf = buf.with_start(pseudo_ptr);
-- 
2.43.0


From f9def9d49c346aa318fd207ee8eb053f38ad0236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:05 +0000
Subject: [PATCH 11/20] fix: keep the whole replacement text of external
 entities referenced in entity values

---
 src/lib/xmlparse.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 0636dfe..09ce42d 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5455,7 +5455,7 @@ unsafe extern "C" fn entityValueInitProcessor(
         (*parser).m_eventEndPtr = next;
         if tok.to_i32().unwrap() <= 0 {
             if !(*parser).m_parsingStatus.finalBuffer && tok != XML_TOK::INVALID {
-                *nextPtr = buf.as_ptr();
+                *nextPtr = init_buf.as_ptr();
                 return XML_Error::NONE;
             }
             match tok {
@@ -5552,9 +5552,10 @@ unsafe extern "C" fn externalParEntProcessor(
 
 unsafe extern "C" fn entityValueProcessor(
     mut parser: XML_Parser,
-    mut buf: ExpatBufRef,
+    init_buf: ExpatBufRef,
     mut nextPtr: *mut *const c_char,
 ) -> XML_Error {
+    let mut buf = init_buf.clone();
     let mut next: *const c_char = buf.as_ptr();
     let mut enc: &ENCODING = &*(*parser).m_encoding;
     let mut tok = XML_TOK::INVALID;
@@ -5562,7 +5563,7 @@ unsafe extern "C" fn entityValueProcessor(
         tok = (*enc).xmlTok(XML_STATE::PROLOG, buf, &mut next);
         if tok.to_i32().unwrap() <= 0 {
             if !(*parser).m_parsingStatus.finalBuffer && tok != XML_TOK::INVALID {
-                *nextPtr = buf.as_ptr();
+                *nextPtr = init_buf.as_ptr();
                 return XML_Error::NONE;
             }
             match tok {
@@ -5576,7 +5577,7 @@ unsafe extern "C" fn entityValueProcessor(
                as valid, and report a syntax error, so we have to skip the BOM
             */
             /* found end of entity value - can store it now */
-            return storeEntityValue(parser, EncodingType::Normal, buf);
+            return storeEntityValue(parser, EncodingType::Normal, init_buf);
         }
         buf = buf.with_start(next);
     }
-- 
2.43.0


From 523fec9b8e4e2ecc7685e39afcdbc79e179ecc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:31 +0000
Subject: [PATCH 12/20] fix: classify U+0080..U+00FF in big-endian UTF-16 input
 without panicking

---
 src/lib/xmltok.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 04217ac..854af33 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -1019,7 +1019,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Big2EncodingImpl<T> {
     fn byte_type(&self, p: *const c_char) -> ByteType {
         let bytes = unsafe { (*p, *p.offset(1)) };
         if bytes.0 == 0 {
-            T::types[bytes.1 as usize]
+            T::types[bytes.1 as u8 as usize]
         } else {
             unicode_byte_type(bytes.0, bytes.1)
         }
-- 
2.43.0


From 1de60638fa29612e8d5ef0e6e5afccbffa1c8e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:56 +0000
Subject: [PATCH 13/20] fix: UTF-16 output conversion of multi-byte UTF-8 and
 of Latin-1 input consumes its input

---
 src/lib/xmltok.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 854af33..0025575 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -601,7 +601,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
                                  | from[1] as c_int & 0x3f)
                             as c_ushort;
                         to.inc_start(1);
-                        from.inc_start(2);
+                        *from = from.inc_start(2);
                     }
                 }
                 6 => {
@@ -614,7 +614,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
                                  | from[2] as c_int & 0x3f)
                             as c_ushort;
                         to.inc_start(1);
-                        from.inc_start(3);
+                        *from = from.inc_start(3);
                     }
                 }
                 7 => {
@@ -644,7 +644,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
                 }
             }
         }
-        if !from.is_empty() {
+        if !from.is_empty() && res == XML_Convert_Result::COMPLETED {
             res = XML_Convert_Result::OUTPUT_EXHAUSTED
         }
         res
@@ -1919,8 +1919,8 @@ fn latin1_toUtf16(
     mut from: &mut ExpatBufRef,
     to: &mut ExpatBufRefMut<u16>,
 ) -> XML_Convert_Result {
-    while !from.is_empty() && to.is_empty() {
-        to[0] = from[0] as u16;
+    while !from.is_empty() && !to.is_empty() {
+        to[0] = from[0] as u8 as u16;
         to.inc_start(1);
         *from = from.inc_start(1);
     }
-- 
2.43.0


From c0644aa5992729f17cf2b3bcbfb8a760c97da77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:12:48 +0000
Subject: [PATCH 14/20] fix: recognise the end of an ignored section written as
 ]]]>

---
 src/lib/xmltok_impl.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/xmltok_impl.rs b/src/lib/xmltok_impl.rs
index 5d41751..7b38ac6 100644
--- a/src/lib/xmltok_impl.rs
+++ b/src/lib/xmltok_impl.rs
@@ -1462,10 +1462,12 @@ impl<T: XmlEncodingImpl+XmlTokImpl> XmlEncoding for T {
                     buf = buf.inc_start(self.MINBPC() as isize);
                     REQUIRE_CHAR!(buf, self);
                     if self.char_matches(buf.as_ptr(), ASCII_RSQB) {
-                        buf = buf.inc_start(self.MINBPC() as isize);
-                        REQUIRE_CHAR!(buf, self);
-                        if self.char_matches(buf.as_ptr(), ASCII_GT) {
-                            buf = buf.inc_start(self.MINBPC() as isize);
+                        /* stay on the second ']' unless it is followed by '>':
+                           it may be the first one of the "]]>" in "]]]>" */
+                        let next = buf.inc_start(self.MINBPC() as isize);
+                        REQUIRE_CHAR!(next, self);
+                        if self.char_matches(next.as_ptr(), ASCII_GT) {
+                            buf = next.inc_start(self.MINBPC() as isize);
                             if level == 0 as libc::c_int {
                                 *nextTokPtr = buf.as_ptr();
                                 return XML_TOK::IGNORE_SECT
-- 
2.43.0


From 709c58677d2af3987154554b154ec246501b8903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:41:33 +0000
Subject: [PATCH 15/20] fix: go on correctly after a suspension inside internal
 entities

Resuming continues with the enclosing entities before the input, an entity
suspended at its very end does not process further input, names of elements
still open are kept, and a child parser keeps its content level.
---
 src/lib/xmlparse.rs | 56 ++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 09ce42d..7225c44 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7025,7 +7025,10 @@ impl XML_ParserStruct {
             )
         }
         if result == XML_Error::NONE {
-            if text_buf.end() != next && self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+            /* an entity within which another one is still open stays open, too */
+            if (text_buf.end() != next || self.m_openInternalEntities != openEntity)
+                && self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED
+            {
                 (*entity).processed = next.wrapping_offset_from(text_buf.as_ptr()) as i32;
                 self.m_processor = Some(internalEntityProcessor as Processor)
             } else {
@@ -7107,7 +7110,10 @@ unsafe extern "C" fn internalEntityProcessor(
     if result != XML_Error::NONE {
         return result;
     } else {
-        if text_buf.end() != next && (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+        /* an entity within which another one is still open stays open, too */
+        if (text_buf.end() != next || (*parser).m_openInternalEntities != openEntity)
+            && (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED
+        {
             (*entity).processed =
                 next.wrapping_offset_from((*entity).textPtr as *mut c_char) as c_int;
             return result;
@@ -7119,34 +7125,26 @@ unsafe extern "C" fn internalEntityProcessor(
             (*parser).m_freeInternalEntities = openEntity
         }
     }
-    if (*entity).is_param {
-        (*parser).m_processor = Some(prologProcessor as Processor);
-        let tok_0 = (*(*parser).m_encoding).xmlTok(XML_STATE::PROLOG, buf, &mut next);
-        (*parser).doProlog(
-            EncodingType::Normal,
-            buf,
-            tok_0,
-            next,
-            nextPtr,
-            !(*parser).m_parsingStatus.finalBuffer,
-            true,
-        )
-    } else {
-        /* XML_DTD */
-        (*parser).m_processor = Some(contentProcessor as Processor);
+    /* Go on with what contains the reference to this entity: the enclosing
+       internal entity (left when the parser was suspended), or the input
+    */
+    let processor = if !(*parser).m_openInternalEntities.is_null() {
+        internalEntityProcessor as Processor
+    } else if (*entity).is_param {
+        prologProcessor as Processor
+    } else if (*parser).is_child_parser {
         /* see externalEntityContentProcessor vs contentProcessor */
-        (*parser).doContent(
-            if (*parser).is_child_parser {
-                1i32
-            } else {
-                0i32
-            },
-            EncodingType::Normal,
-            buf,
-            nextPtr,
-            !(*parser).m_parsingStatus.finalBuffer,
-        )
-    } /* save one level of indirection */
+        externalEntityContentProcessor as Processor
+    } else {
+        contentProcessor as Processor
+    };
+    (*parser).m_processor = Some(processor);
+    if (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+        /* suspended at the very end of the entity */
+        *nextPtr = buf.as_ptr();
+        return XML_Error::NONE;
+    }
+    processor(parser, buf, nextPtr)
 }
 
 unsafe extern "C" fn errorProcessor(
-- 
2.43.0


From bf880babece1392710e18c96bf7ce15b261c0660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:56:39 +0000
Subject: [PATCH 16/20] fix: call the not-standalone handler once, and only for
 external parameter entities

---
 src/lib/xmlparse.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 7225c44..37e846d 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6587,10 +6587,6 @@ impl XML_ParserStruct {
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
                                 return r;
                             }
-                            /* XML_DTD */
-                            if !self.m_dtd.standalone.get() && self.m_handlers.notStandalone() == Ok(0) {
-                                return XML_Error::NOT_STANDALONE;
-                            }
                         } else if entity.is_null() {
                             self.m_dtd.keepProcessing.set(self.m_dtd.standalone.get());
                             /* cannot report skipped entities in declarations */
@@ -6608,10 +6604,6 @@ impl XML_ParserStruct {
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
                                 return r;
                             }
-                            /* XML_DTD */
-                            if !self.m_dtd.standalone.get() && self.m_handlers.notStandalone() == Ok(0) {
-                                return XML_Error::NOT_STANDALONE;
-                            }
                         }
                     }
                 }
-- 
2.43.0


From cf2cfd49a0383c8ef53df73d073e44ad4291fc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:00:42 +0000
Subject: [PATCH 17/20] fix: keep the context bytes when the input buffer grows
 with all data consumed

XML_GetInputContext lost the bytes before the current event when the
buffer had to grow and no unprocessed data was left in it.
---
 src/lib/xmlparse.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 37e846d..672f34e 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2832,15 +2832,10 @@ impl  XML_ParserStruct {
                     return None;
                 }
                 self.m_buffer.resize(bufferSize, 0);
-                if self.m_bufferStart < self.m_bufferEnd {
-                    self.m_buffer.copy_within(self.m_bufferStart-keep..self.m_bufferEnd, 0);
-                    self.m_bufferEnd = self.m_bufferEnd - self.m_bufferStart + keep;
-                    self.m_bufferStart = keep;
-                } else {
-                    /* This must be a brand new buffer with no data in it yet */
-                    self.m_bufferStart = 0;
-                    self.m_bufferEnd = 0;
-                }
+                /* Keep the context even if all data has been consumed */
+                self.m_buffer.copy_within(self.m_bufferStart-keep..self.m_bufferEnd, 0);
+                self.m_bufferEnd = self.m_bufferEnd - self.m_bufferStart + keep;
+                self.m_bufferStart = keep;
             }
             self.m_eventEndPtr = ptr::null();
             self.m_eventPtr = ptr::null();
-- 
2.43.0


From 577335a56082c0c5ada120c31f9f77a4398e8a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:28:22 +0000
Subject: [PATCH 18/20] fix: XML_ParserReset panicked while an external
 parameter entity parser shared the DTD

---
 src/lib/xmlparse.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 672f34e..77c4468 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1830,6 +1830,13 @@ impl XML_ParserStruct {
         if self.is_child_parser {
             return false;
         }
+        /* an external parameter entity parser may still share the DTD */
+        if Rc::get_mut(&mut self.m_dtd).is_none() {
+            self.m_dtd = match DTD::try_new().and_then(Rc::try_new) {
+                Ok(newDtd) => newDtd,
+                Err(_) => return false,
+            };
+        }
         /* move m_tagStack to m_freeTagList */
         let mut tStk = self.m_tagStack.take();
         while let Some(mut tag) = tStk {
-- 
2.43.0


From 6435c7fd0516ac882443f7bddddc3b4379711f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 19/20] fix: report an allocation failure for the prefix
 declared by an xmlns: attribute

getAttributeId ignored a null result of the prefix table insertion, so that the
declaration was silently dropped.
---
 src/lib/xmlparse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 77c4468..17f6081 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7877,6 +7877,9 @@ impl XML_ParserStruct {
                             &name[6] as *const _,
                             Prefix
                         ).0;
+                        if (*id).prefix.is_null() {
+                            return ptr::null_mut();
+                        }
                     }
                     (*id).xmlns = true
                 } else {
-- 
2.43.0


From faa92188d9bd15cac8ec31d8b2be17c589035f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:09 +0000
Subject: [PATCH 20/20] fix: an encoding name of 127 bytes no longer aborts the
 process

The converted name fills the output slice up to its end, and p[0] then
indexed an empty slice. The buffer is zero-filled, so the terminator is there.
---
 src/lib/xmltok.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 0025575..ab7acc2 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -2559,7 +2559,8 @@ pub fn findEncoding(
     if !buf.is_empty() {
         return None;
     }
-    p[0] = 0;
+    /* out_buf is zero-filled and its last byte is never written, so the name
+     * is terminated; p is empty when the name has 127 bytes. */
     unsafe {
         if streqci(out_buf.as_ptr(), KW_UTF_16.as_ptr()) != 0 && (*enc).minBytesPerChar() == 2 {
             return Some(enc.clone());
@@ -2587,7 +2588,8 @@ pub fn findEncodingNS(
     if !buf.is_empty() {
         return None;
     }
-    p[0] = 0;
+    /* out_buf is zero-filled and its last byte is never written, so the name
+     * is terminated; p is empty when the name has 127 bytes. */
     unsafe {
         if streqci(out_buf.as_ptr(), KW_UTF_16.as_ptr()) != 0 && (*enc).minBytesPerChar() == 2 {
             return Some(enc.clone());
-- 
2.43.0

