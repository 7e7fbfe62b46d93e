From 5e7d62939754e47abaa1f419889d952dc7109dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 01/17] fix: report malformed variable-length integers and
 ordinals as malformed data

The readers in var_len raised io::Error for over-long integers, ordinals out
of range and uninhabited enums, so they surfaced as ErrorKind::Io.
---
 binschema/src/var_len.rs | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/binschema/src/var_len.rs b/binschema/src/var_len.rs
index 343207b..b3e4ab3 100644
--- a/binschema/src/var_len.rs
+++ b/binschema/src/var_len.rs
@@ -1,27 +1,19 @@
 //! Handling of variable-length integer logic.
 
 
+use crate::error::{
+    self,
+    error,
+    bail,
+    ensure,
+};
 use std::io::{
     Read,
     Write,
     Result,
-    Error,
-    ErrorKind,
 };
 
 
-macro_rules! ensure {
-    ($c:expr, $($e:tt)*)=>{
-        if !$c {
-            return Err(Error::new(
-                ErrorKind::Other,
-                format!($($e)*),
-            ));
-        }
-    };
-}
-
-
 /// Number of bytes needed to encode an ordinal based on max ordinal
 /// value.
 fn ord_byte_len(max_ord: usize) -> usize {
@@ -58,11 +50,16 @@ where
 pub fn read_ord<R>(
     read: &mut R,
     num_variants: usize,
-) -> Result<usize>
+) -> error::Result<usize>
 where
     R: Read,
 {
-    ensure!(num_variants > 0, "malformed data, presence of uninhabited enum");
+    ensure!(
+        num_variants > 0,
+        MalformedData,
+        None,
+        "malformed data, presence of uninhabited enum",
+    );
     let mut all_bytes = [0; 8];
     let byte_len = ord_byte_len(num_variants - 1);
     let used_bytes = &mut all_bytes[..byte_len];
@@ -70,6 +67,8 @@ where
     let ord = u64::from_le_bytes(all_bytes);
     ensure!(
         ord < num_variants as u64,
+        MalformedData,
+        None,
         "malformed data, enum ordinal {} out of range 0..{}",
         ord,
         num_variants,
@@ -105,7 +104,7 @@ where
 /// Read a variable length unsigned int.
 pub fn read_var_len_uint<R>(
     read: &mut R,
-) -> Result<u128>
+) -> error::Result<u128>
 where
     R: Read,
 {
@@ -115,6 +114,8 @@ where
     while more {
         ensure!(
             shift < 128,
+            MalformedData,
+            None,
             "malformed data: too many bytes in var len uint",
         );
 
@@ -167,7 +168,7 @@ where
 /// Read a variable length signed int.
 pub fn read_var_len_sint<R>(
     read: &mut R,
-) -> Result<i128>
+) -> error::Result<i128>
 where
     R: Read,
 {
@@ -183,9 +184,10 @@ where
     let mut shift = 6;
 
     while more {
-        // TODO: should use crate-specific error types
         ensure!(
             shift < 128,
+            MalformedData,
+            None,
             "malformed data: too many bytes in var len sint",
         );
 
-- 
2.43.0


From 486862a19e00d683b200ee4989529a951f759d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 02/17] fix: break the decoder on invalid bools, chars and
 option flags

These malformed-data errors left the decoder usable: it reported finished
after a bad bool or char, and hit unreachable!() on the call after a bad
option flag.
---
 binschema/src/decoder.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/binschema/src/decoder.rs b/binschema/src/decoder.rs
index 3971bfe..650c795 100644
--- a/binschema/src/decoder.rs
+++ b/binschema/src/decoder.rs
@@ -168,6 +168,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 "{} is not a valid char",
                 n
             ))
+            .do_if_err(|| self.state.mark_broken())
     }
 
     pub fn decode_bool(&mut self) -> Result<bool> {
@@ -183,6 +184,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 n,
             )),
         }
+            .do_if_err(|| self.state.mark_broken())
     }
 
     pub fn decode_unit(&mut self) -> Result<()> {
@@ -274,12 +276,15 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
             match n {
                 0 => false,
                 1 => true,
-                _ => bail!(
-                    MalformedData,
-                    Some(self.coder_state()),
-                    "{} is not a valid option someness",
-                    n,
-                ),
+                _ => {
+                    self.state.mark_broken();
+                    bail!(
+                        MalformedData,
+                        Some(self.coder_state()),
+                        "{} is not a valid option someness",
+                        n,
+                    );
+                }
             };
         if is_some {
             self.state.set_option_some()?;
-- 
2.43.0


From 8e1a83ba5fd462abb90e039486eed006d5749db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 03/17] fix: correct the inverted assertion in finish_seq

Finishing a seq before all its elements were coded panicked in debug builds
instead of being rejected as API usage.
---
 binschema/src/coder/coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 393f176..cc4b703 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -577,7 +577,7 @@ impl<'a> CoderState<'a> {
                 } => (len, next),
                 "seq finish"
             );
-        debug_assert!(len <= next);
+        debug_assert!(next <= len);
         ensure!(
             len == next,
             ApiUsage,
-- 
2.43.0


From 6f0dc6b7941227c40b6a2d974a4060f33f6dc75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 04/17] fix: resolve recurse by the schema tree instead of the
 coder stack

A recurse whose target lies below other recurse hops counted coder stack
frames, not schema ancestors, so it resolved to the wrong node whenever a
stack frame had been pushed through a recurse. Each frame now remembers the
frame of its lexical parent.
---
 binschema/src/coder/coder.rs | 43 +++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index cc4b703..dbddbfc 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -95,6 +95,10 @@ macro_rules! dbg_log_pop {
 pub(super) struct StackFrame<'a> {
     schema: &'a Schema,
     api_state: ApiState,
+    /// Index in the stack of the frame for the parent of `schema` in the
+    /// schema tree. This differs from the preceding frame if this frame was
+    /// reached through a recurse.
+    parent: Option<usize>,
 }
 
 #[derive(Debug, Clone)]
@@ -171,6 +175,7 @@ impl<'a> CoderState<'a> {
         stack.push(StackFrame {
             schema,
             api_state: ApiState::Need,
+            parent: None,
         });
         CoderState {
             stack,
@@ -298,6 +303,7 @@ macro_rules! validate_need_matches {
             &mut StackFrame {
                 schema: $pat,
                 api_state: ApiState::Need,
+                ..
             } => $ret,
             $got
         )
@@ -334,25 +340,32 @@ impl<'a> CoderState<'a> {
     /// Push a stack frame for needing the schema. If the schema is recurse,
     /// resolve it first.
     fn push_need(&mut self, mut schema: &'a Schema) -> Result<()> {
-        let mut i = self.stack.len();
-        while let &Schema::Recurse(n) = schema {
+        let mut parent = self.stack.len().checked_sub(1);
+        if let &Schema::Recurse(n) = schema {
             if n == 0 {
                 self.broken = true;
                 bail!(IllegalSchema, Some(self), "recurse of level 0");
             }
-            i = i
-                .checked_sub(n)
-                .ok_or_else(|| error!(
-                    IllegalSchema,
-                    Some(self),
-                    "recurse past base of stack",
-                ))
-                .do_if_err(|| self.broken = true)?;
-            schema = self.stack[i].schema;
+            // go up the schema tree, which isn't necessarily the same as going
+            // down the stack, as frames may themselves be targets of recurse
+            for level in 1..=n {
+                let i = parent
+                    .ok_or_else(|| error!(
+                        IllegalSchema,
+                        Some(self),
+                        "recurse past base of stack",
+                    ))
+                    .do_if_err(|| self.broken = true)?;
+                if level == n {
+                    schema = self.stack[i].schema;
+                }
+                parent = self.stack[i].parent;
+            }
         }
         self.stack.push(StackFrame {
             schema,
             api_state: ApiState::Need,
+            parent,
         });
         Ok(())
     }
@@ -378,6 +391,7 @@ impl<'a> CoderState<'a> {
             Some(&StackFrame {
                 schema,
                 api_state: ApiState::Need,
+                ..
             }) => Ok(schema),
             _ => Err(error!(
                 ApiUsage, Some(self), ".need() call while not in need state"
@@ -544,6 +558,7 @@ impl<'a> CoderState<'a> {
                         len,
                         ref mut next,
                     },
+                    ..
                 } => (schema, len, next),
                 "seq elem"
             );
@@ -618,6 +633,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Tuple {
                         ref mut next,
                     },
+                    ..
                 } => (schema, next),
                 "tuple elem"
             );
@@ -652,6 +668,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Tuple {
                         next,
                     },
+                    ..
                 } => (schema, next),
                 "tuple finish"
             );
@@ -700,6 +717,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Struct {
                         ref mut next,
                     },
+                    ..
                 } => (schema, next),
                 "struct field"
             );
@@ -743,6 +761,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Struct {
                         next,
                     },
+                    ..
                 } => (schema, next),
                 "struct finish"
             );
@@ -799,6 +818,7 @@ impl<'a> CoderState<'a> {
                 &mut StackFrame {
                     schema,
                     api_state: ApiState::Enum { variant_ord: None },
+                    ..
                 } => schema,
                 "enum variant ord"
             );
@@ -836,6 +856,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Enum {
                         variant_ord: Some(variant_ord),
                     },
+                    ..
                 } => (schema, variant_ord),
                 "enum variant name"
             );
-- 
2.43.0


From bc617d84ec7949cea8ecd9444fd097a0e17ef1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:25 +0000
Subject: [PATCH 05/17] fix: finish empty seqs, tuples, maps, and structs when
 deserializing

The finish call was only made along with the last element, so a decoder that
deserialized an empty one was left unfinished.
---
 binschema/src/serde/de.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/binschema/src/serde/de.rs b/binschema/src/serde/de.rs
index 93ca7a3..6bfa992 100644
--- a/binschema/src/serde/de.rs
+++ b/binschema/src/serde/de.rs
@@ -81,6 +81,14 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 got_len,
             );
         }
+        if len == 0 {
+            // finishing is otherwise done along with the last element
+            match seq_like {
+                SeqLike::Seq => self.finish_seq()?,
+                SeqLike::Tuple => self.finish_tuple()?,
+                SeqLike::Unit => (),
+            }
+        }
         v.visit_seq(SeqDecoder {
             decoder: self,
             remaining: len,
@@ -98,6 +106,10 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         N: AsName,
     {
         self.begin_struct()?;
+        if fields.is_empty() {
+            // finishing is otherwise done along with the last field
+            self.finish_struct()?;
+        }
         v.visit_map(StructDecoder {
             decoder: self,
             remaining: fields,
@@ -251,6 +263,10 @@ impl<'a, 'b, 'c, 'd, R: Read> Deserializer<'d> for &'c mut Decoder<'a, 'b, R> {
 
     fn deserialize_map<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {
         let len = self.begin_var_len_seq()?;
+        if len == 0 {
+            // finishing is otherwise done along with the last entry
+            self.finish_seq()?;
+        }
         v.visit_map(MapDecoder {
             decoder: self,
             remaining: len,
-- 
2.43.0


From a3f74ef734c3c827ecb6d067ce431f89a28b8649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 06/17] fix: declare the field names ranges actually serialize
 with

---
 binschema/src/known_schema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 1d0bb58..dc5dbf5 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -234,7 +234,7 @@ impl<T: KnownSchema> KnownSchema for Range<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(struct {
-            (begin: %T::schema(stack)),
+            (start: %T::schema(stack)),
             (end: %T::schema(stack)),
         })
     }
@@ -244,7 +244,7 @@ impl<T: KnownSchema> KnownSchema for RangeInclusive<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(struct {
-            (begin: %T::schema(stack)),
+            (start: %T::schema(stack)),
             (end: %T::schema(stack)),
         })
     }
-- 
2.43.0


From 60deca840362745e9a49b441bd35614239cede57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 07/17] fix: declare the variants of Bound in the order serde
 numbers them

---
 binschema/src/known_schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index dc5dbf5..5b5101f 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -254,9 +254,9 @@ impl<T: KnownSchema> KnownSchema for Bound<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(enum {
+            Unbounded(unit),
             Included(%T::schema(stack)),
             Excluded(%T::schema(stack)),
-            Unbounded(unit),
         })
     }
 }
-- 
2.43.0


From f2fc906c5cf0aa02c53461473b51288c39c09853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 08/17] fix: count the tuple layer when resolving recursion
 through maps

---
 binschema/src/known_schema.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 5b5101f..46d390e 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -182,6 +182,8 @@ macro_rules! maps_known_schema {
         impl<K: KnownSchema, V: KnownSchema> KnownSchema for $c<K, V> {
             fn schema(parent_stack: RecurseStack) -> Schema {
                 let stack = parent_stack.with_type_layer::<Self>();
+                // layer for the tuple
+                let stack = stack.with_none_layer();
                 schema!(seq(varlen)(tuple {
                     (%K::schema(stack)),
                     (%V::schema(stack)),
-- 
2.43.0


From e9414d44c734f986b4e2cd13fadb2ac43c6f3c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 09/17] fix: don't allocate on the strength of a decoded length

A few bytes declaring a huge str, bytes, or seq made the decoder panic with a
capacity overflow or allocate that much up front.
---
 binschema/src/decoder.rs | 42 +++++++++++++++++++++++++++-------------
 binschema/src/value.rs   |  6 ++++--
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/binschema/src/decoder.rs b/binschema/src/decoder.rs
index 650c795..a5ffed1 100644
--- a/binschema/src/decoder.rs
+++ b/binschema/src/decoder.rs
@@ -20,12 +20,18 @@ use std::{
         size_of,
         take,
     },
-    io::Read,
+    io::{
+        self,
+        Read,
+    },
     borrow::BorrowMut,
-    iter::repeat,
 };
 
 
+/// Number of bytes that may be allocated before having read any of them.
+const MAX_TRUSTED_LEN: usize = 4096;
+
+
 /// Decodes a value from a `std::io::Read` comforming to a schema.
 pub struct Decoder<'a, 'b, R> {
     state: &'b mut CoderState<'a>,
@@ -114,6 +120,24 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         Ok(buf)
     }
 
+    /// Read exactly `len` bytes into the empty `buf`. Doesn't trust `len`, so
+    /// as to not allocate more than is proportional to the bytes that really
+    /// are there to be read.
+    fn read_to_buf(&mut self, buf: &mut Vec<u8>, len: usize) -> Result<()> {
+        buf.reserve(len.min(MAX_TRUSTED_LEN));
+        self.read
+            .by_ref()
+            .take(len as u64)
+            .read_to_end(buf)
+            .and_then(|n| if n == len {
+                Ok(())
+            } else {
+                Err(io::Error::from(io::ErrorKind::UnexpectedEof))
+            })
+            .do_if_err(|| self.state.mark_broken())?;
+        Ok(())
+    }
+
     /// Read a varlen-encoded usize.
     fn read_len(&mut self) -> Result<usize> {
         read_var_len_uint(&mut self.read)
@@ -206,17 +230,12 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         // characters are actually added to it.
         let mut bbuf = take(buf).into_bytes();
 
-        // TODO: protection against malicious payloads
-
         // try to read all the bytes in
         // on error, make sure to return the buffer
-        bbuf.reserve(len);
-        bbuf.extend(repeat(0).take(len));
-        if let Err(e) = self.read.read_exact(&mut bbuf) {
-            self.state.mark_broken();
+        if let Err(e) = self.read_to_buf(&mut bbuf, len) {
             bbuf.clear();
             *buf = String::from_utf8(bbuf).unwrap();
-            return Err(e.into());
+            return Err(e);
         }
 
         // try to convert to utf8
@@ -252,10 +271,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
 
         self.state.code_bytes()?;
         let len = self.read_len().do_if_err(|| self.state.mark_broken())?;
-        buf.reserve(len);
-        buf.extend(repeat(0).take(len));
-        self.read.read_exact(buf).do_if_err(|| self.state.mark_broken())?;
-        Ok(())
+        self.read_to_buf(buf, len)
     }
 
     /// Decode a bytes into a new alloc.
diff --git a/binschema/src/value.rs b/binschema/src/value.rs
index 3df5a12..a31b79a 100644
--- a/binschema/src/value.rs
+++ b/binschema/src/value.rs
@@ -132,7 +132,8 @@ impl Value {
                 inner: _,
             }) => {
                 d.begin_fixed_len_seq(len)?;
-                let mut elems = Vec::with_capacity(len);
+                // don't trust len for the capacity
+                let mut elems = Vec::new();
                 for _ in 0..len {
                     d.begin_seq_elem()?;
                     elems.push(Value::decode_from(d,)?);
@@ -145,7 +146,8 @@ impl Value {
                 inner: _,
             }) => {
                 let len = d.begin_var_len_seq()?;
-                let mut elems = Vec::with_capacity(len);
+                // don't trust len for the capacity
+                let mut elems = Vec::new();
                 for _ in 0..len {
                     d.begin_seq_elem()?;
                     elems.push(Value::decode_from(d)?);
-- 
2.43.0


From 503e780c0be14e9d37415ccd9f211c2c7c380c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 10/17] fix: don't cancel an enum whose variant broke the
 encoder

Beginning a variant with an illegal recurse panicked in cancel_enum.
---
 binschema/src/coder/coder.rs | 5 +++++
 binschema/src/encoder.rs     | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index dbddbfc..7be8323 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -405,6 +405,11 @@ impl<'a> CoderState<'a> {
         self.broken = true;
     }
 
+    /// Whether `mark_broken` has been called, or equivalent.
+    pub(crate) fn is_broken(&self) -> bool {
+        self.broken
+    }
+
     code_simple!(
         code_u8(u8),
         code_u16(u16),
diff --git a/binschema/src/encoder.rs b/binschema/src/encoder.rs
index d1f6f45..e8a5fa4 100644
--- a/binschema/src/encoder.rs
+++ b/binschema/src/encoder.rs
@@ -239,7 +239,9 @@ impl<'a, 'b, W: Write> Encoder<'a, 'b, W> {
             .do_if_err(|| self.state.cancel_enum())?;
         self.state
             .begin_enum_variant_name(variant_name)
-            .do_if_err(|| self.state.cancel_enum())?;
+            .do_if_err(|| if !self.state.is_broken() {
+                self.state.cancel_enum()
+            })?;
 
         write_ord(&mut self.write, variant_ord, num_variants)
             .do_if_err(|| self.state.mark_broken())?;
-- 
2.43.0


From 735b950bb726c767ef310b81bb740097e52c29df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 11/17] fix: report a recurse at the root of a schema as an
 illegal schema

It was a schema non-conformance error, or a panic when decoding dynamically.
---
 binschema/src/coder/coder.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 7be8323..849d212 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -215,6 +215,10 @@ macro_rules! validate_top {
             Some($self),
             "usage after IO error",
         );
+        if $self.root_is_recurse() {
+            $self.broken = true;
+            bail!(IllegalSchema, Some($self), "recurse at root of schema");
+        }
         match $self.stack.iter_mut().rev().next() {
             None => bail!(ApiUsage, Some($self), "usage of finished coder"),
             Some($top) => match $opt_ret {
@@ -331,6 +335,15 @@ macro_rules! code_simple {
 }
 
 impl<'a> CoderState<'a> {
+    /// Whether the top stack frame is an unresolved recurse. This can only be
+    /// if it's the root of the schema, and is illegal.
+    fn root_is_recurse(&self) -> bool {
+        matches!(
+            self.stack.last(),
+            Some(&StackFrame { schema: &Schema::Recurse(_), .. })
+        )
+    }
+
     /// Unwrap top stack frame.
     fn top(&mut self) -> &mut StackFrame<'a> {
         let i = self.stack.len() - 1;
@@ -387,6 +400,12 @@ impl<'a> CoderState<'a> {
     /// will return the schema that recursion resolved to, or fail if it
     /// couldn't resolve.
     pub(crate) fn need(&self) -> Result<&'a Schema> {
+        ensure!(
+            !self.root_is_recurse(),
+            IllegalSchema,
+            Some(self),
+            "recurse at root of schema",
+        );
         match self.stack.iter().rev().next() {
             Some(&StackFrame {
                 schema,
-- 
2.43.0


From c686ece274c6fe5072ed421cad1c94524b13fc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 12/17] fix: derive the right recurse levels for structs

Deriving for a struct counted a layer that isn't in the schema, both for
structs with several fields and for newtype structs, so recursion through them
was declared to resolve to the wrong type or past the root.
---
 binschema/src/known_schema.rs | 27 +++++++++++++++++++++++++--
 binschema_derive/src/lib.rs   | 30 ++++++++++++++++++++++++------
 2 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 46d390e..d53230e 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -36,6 +36,9 @@ pub struct RecurseStack<'a>(Option<Node<'a>>);
 struct Node<'a> {
     val: Option<fn(RecurseStack) -> Schema>,
     dbg: &'static str,
+    /// Whether this isn't a layer of the schema of its own, but the same one as
+    /// the layer that's put on top of it.
+    transparent: bool,
     next: &'a Option<Node<'a>>,
 }
 
@@ -54,6 +57,18 @@ impl<'a> RecurseStack<'a> {
         RecurseStack(Some(Node {
             val: Some(T::schema),
             dbg: type_name::<T>(),
+            transparent: false,
+            next: &self.0,
+        }))
+    }
+
+    /// Layer for a type which has the schema of its inner type, such as a
+    /// newtype struct.
+    pub fn with_newtype_layer<'b, T: KnownSchema + ?Sized>(&'b self) -> RecurseStack<'b> {
+        RecurseStack(Some(Node {
+            val: Some(T::schema),
+            dbg: type_name::<T>(),
+            transparent: true,
             next: &self.0,
         }))
     }
@@ -62,6 +77,7 @@ impl<'a> RecurseStack<'a> {
         RecurseStack(Some(Node {
             val: None,
             dbg: "",
+            transparent: false,
             next: &self.0,
         }))
     }
@@ -73,11 +89,18 @@ impl<'a> RecurseStack<'a> {
         while let Some(curr) = opt_curr {
             if let Some(curr_val) = curr.val {
                 if curr_val as usize == T::schema as usize {
-                    return Some(level);
+                    return Some(if curr.transparent {
+                        // of the layer on top of it
+                        usize::saturating_sub(level, 1)
+                    } else {
+                        level
+                    });
                 }
             }
             opt_curr = curr.next;
-            level += 1;
+            if !curr.transparent {
+                level += 1;
+            }
         }
 
         None
diff --git a/binschema_derive/src/lib.rs b/binschema_derive/src/lib.rs
index 1237e6a..dee6da2 100644
--- a/binschema_derive/src/lib.rs
+++ b/binschema_derive/src/lib.rs
@@ -50,7 +50,15 @@ fn field_schema(field: &Field) -> TokenStream2 {
     }
 }
 
-fn fields_schema(fields: &Fields) -> TokenStream2 {
+/// Schema for a set of fields. If `is_variant`, this is a layer inside of the
+/// layer for the enum type, otherwise it itself is the layer for the type.
+fn fields_schema(fields: &Fields, is_variant: bool) -> TokenStream2 {
+    let stack =
+        if is_variant {
+            quote! { stack.with_none_layer() }
+        } else {
+            quote! { stack }
+        };
     match fields {
         &Fields::Named(FieldsNamed { ref named, .. }) => {
             // struct-like
@@ -65,7 +73,7 @@ fn fields_schema(fields: &Fields) -> TokenStream2 {
                 .collect::<Punctuated<_, Comma>>();
             quote! {
                 %{
-                    let stack = stack.with_none_layer();
+                    let stack = #stack;
                     ::binschema::schema!(
                         struct { #inner }
                     )
@@ -91,7 +99,7 @@ fn fields_schema(fields: &Fields) -> TokenStream2 {
                     .collect::<Punctuated<_, Comma>>();
                 quote! {
                 %{
-                    let stack = stack.with_none_layer();
+                    let stack = #stack;
                     ::binschema::schema!(
                         tuple { #inner }
                     )
@@ -113,12 +121,12 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
 
     let name = &input.ident;
     let schema = match &input.data {
-        &Data::Struct(DataStruct { ref fields, .. }) => fields_schema(fields),
+        &Data::Struct(DataStruct { ref fields, .. }) => fields_schema(fields, false),
         &Data::Enum(DataEnum { ref variants, .. }) => {
             let inner = variants.iter()
                 .map(|variant| {
                     let variant_name = &variant.ident;
-                    let inner = fields_schema(&variant.fields);
+                    let inner = fields_schema(&variant.fields, true);
                     quote! {
                         #variant_name(#inner)
                     }
@@ -131,6 +139,16 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
         &Data::Union(_) => panic!("cannot derive KnownSchema on a union"),
     };
     
+    // a newtype struct has the schema of its inner type, without a layer
+    let layer =
+        match &input.data {
+            &Data::Struct(DataStruct {
+                fields: Fields::Unnamed(ref fields),
+                ..
+            }) if fields.unnamed.len() == 1 => quote! { with_newtype_layer },
+            _ => quote! { with_type_layer },
+        };
+
     quote! {
         impl ::binschema::KnownSchema for #name {
             fn schema(
@@ -139,7 +157,7 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
                 if let Some(s) = parent_stack.parent_recurse::<Self>() {
                     return s;
                 }
-                let stack = parent_stack.with_type_layer::<Self>();
+                let stack = parent_stack.#layer::<Self>();
                 ::binschema::schema!(#schema)
             }
         }
-- 
2.43.0


From 4ecd3e3567b55d82b42ab5d92d7e556c87882e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 13/17] fix: derive schemas with the names serde gives raw
 identifiers

---
 binschema_derive/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binschema_derive/src/lib.rs b/binschema_derive/src/lib.rs
index dee6da2..5d7004b 100644
--- a/binschema_derive/src/lib.rs
+++ b/binschema_derive/src/lib.rs
@@ -2,6 +2,7 @@
 use proc_macro::TokenStream;
 use proc_macro2::TokenStream as TokenStream2;
 use syn::{
+    ext::IdentExt,
     token::Comma,
     punctuated::Punctuated,
     parse_macro_input,
@@ -64,7 +65,7 @@ fn fields_schema(fields: &Fields, is_variant: bool) -> TokenStream2 {
             // struct-like
             let inner = named.iter()
                 .map(|field| {
-                    let field_name = field.ident.as_ref().unwrap();
+                    let field_name = field.ident.as_ref().unwrap().unraw();
                     let inner = field_schema(field);
                     quote! {
                         (#field_name: #inner)
@@ -125,7 +126,7 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
         &Data::Enum(DataEnum { ref variants, .. }) => {
             let inner = variants.iter()
                 .map(|variant| {
-                    let variant_name = &variant.ident;
+                    let variant_name = variant.ident.unraw();
                     let inner = fields_schema(&variant.fields, true);
                     quote! {
                         #variant_name(#inner)
-- 
2.43.0


From 1fa6775871465b551c7252166acf6e0b5fdb7f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 14/17] fix: pretty_fmt drew no arrow tip at a node already
 passed by another arrow

---
 binschema/src/schema.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/binschema/src/schema.rs b/binschema/src/schema.rs
index ae99363..380a303 100644
--- a/binschema/src/schema.rs
+++ b/binschema/src/schema.rs
@@ -216,6 +216,12 @@ impl Schema {
                     .unwrap() + 1;
                 bar_idx = usize::max(bar_idx, dst_idx + 2);
                 bar_idx = usize::max(bar_idx, start_idx + 1);
+                // leave room for arrows to the nodes this arrow passes on the way
+                let mut passed = parents;
+                while let Some(node) = passed.filter(|node| node.line > dst_line) {
+                    bar_idx = usize::max(bar_idx, node.idx + 3);
+                    passed = node.next;
+                }
                 while lines[start_line].len() < start_idx {
                     lines[start_line].push_str(" ");
                 }
@@ -238,14 +244,18 @@ impl Schema {
                     lines[dst_line].push_str(" ");
                 }
                 for i in dst_idx..=bar_idx {
+                    let part = if i == dst_idx {
+                        "<"
+                    } else if i < bar_idx {
+                        "-"
+                    } else {
+                        "\\"
+                    };
                     if i == lines[dst_line].len() {
-                        if i == dst_idx {
-                            lines[dst_line].push_str("<");
-                        } else if i < bar_idx {
-                            lines[dst_line].push_str("-");
-                        } else {
-                            lines[dst_line].push_str("\\");
-                        }
+                        lines[dst_line].push_str(part);
+                    } else if lines[dst_line].as_bytes()[i] == b' ' {
+                        // padding before the bar of an arrow passing this line
+                        lines[dst_line].replace_range(i..=i, part);
                     }
                 }
             }
-- 
2.43.0


From 5cf19ae955009a2a552ab1530b4a1bdc3651a349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:26 +0000
Subject: [PATCH 15/17] fix: a failing debug log together with a failing stderr
 panicked

---
 binschema/src/coder/coder.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 849d212..b1edac0 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -20,7 +20,7 @@ use crate::{
 use std::{
     write,
     writeln,
-    io::Write,
+    io::{self, Write},
     fmt::{self, Formatter, Debug},
 };
 
@@ -38,19 +38,24 @@ struct DbgLog<'a> {
     indent: usize,
 }
 
+fn report_dbg_log_error(e: io::Error) {
+    // not eprintln, as that panics if it fails
+    let _ = writeln!(io::stderr(), "IO error in coder dbg log: {}", e);
+}
+
 macro_rules! dbg_log {
     ($self:ident, $($t:tt)*)=>{
         if let Some(ref mut dbg_log) = $self.dbg_log {
             for _ in 0..dbg_log.indent {
                 let _ = write!(dbg_log.write, "  ")
-                    .map_err(|e| eprintln!("IO error in coder dbg log: {}", e));
+                    .map_err(report_dbg_log_error);
             }
             let _ = write!(dbg_log.write, "<")
-                    .map_err(|e| eprintln!("IO error in coder dbg log: {}", e));
+                    .map_err(report_dbg_log_error);
             let _ = write!(dbg_log.write, $($t)*)
-                .map_err(|e| eprintln!("IO error in coder dbg log: {}", e));
+                .map_err(report_dbg_log_error);
             let _ = writeln!(dbg_log.write, "/>")
-                .map_err(|e| eprintln!("IO error in coder dbg log: {}", e));
+                .map_err(report_dbg_log_error);
         }
     };
 }
@@ -60,14 +65,14 @@ macro_rules! dbg_log_push {
         if let Some(ref mut dbg_log) = $self.dbg_log {
             for _ in 0..dbg_log.indent {
                 let _ = write!(dbg_log.write, "  ")
-                    .map_err(|e| eprintln!("IO error in coder dbg log: {}", e));
+                    .map_err(report_dbg_log_error);
             }
             let _ = write!(dbg_log.write, "<")
-                    .map_err(|e| eprintln!("IO error in coder dbg log: {}", e));
+                    .map_err(report_dbg_log_error);
             let _ = write!(dbg_log.write, $($t)*)
-                .map_err(|e| eprintln!("IO error in coder dbg log: {}", e));
+                .map_err(report_dbg_log_error);
             let _ = writeln!(dbg_log.write, ">")
-                .map_err(|e| eprintln!("IO error in coder dbg log: {}", e));
+                .map_err(report_dbg_log_error);
             dbg_log.indent += 1;
         }
     };
@@ -78,14 +83,14 @@ macro_rules! dbg_log_pop {
         if let Some(ref mut dbg_log) = $self.dbg_log {
             for _ in 0..dbg_log.indent {
                 let _ = write!(dbg_log.write, "  ")
-                    .map_err(|e| eprintln!("IO error in coder dbg log: {}", e));
+                    .map_err(report_dbg_log_error);
             }
             let _ = write!(dbg_log.write, "</")
-                    .map_err(|e| eprintln!("IO error in coder dbg log: {}", e));
+                    .map_err(report_dbg_log_error);
             let _ = write!(dbg_log.write, $($t)*)
-                .map_err(|e| eprintln!("IO error in coder dbg log: {}", e));
+                .map_err(report_dbg_log_error);
             let _ = writeln!(dbg_log.write, ">")
-                .map_err(|e| eprintln!("IO error in coder dbg log: {}", e));
+                .map_err(report_dbg_log_error);
             dbg_log.indent -= 1;
         }
     };
-- 
2.43.0


From 94c1bbcac13c5b45fe82862352538f56e9a5f25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:53 +0000
Subject: [PATCH 16/17] fix: a tuple with elements under a unit schema failed
 but left the coder finished

---
 binschema/src/serde/ser.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/binschema/src/serde/ser.rs b/binschema/src/serde/ser.rs
index 3531206..67e5187 100644
--- a/binschema/src/serde/ser.rs
+++ b/binschema/src/serde/ser.rs
@@ -60,10 +60,8 @@ impl<'a, 'b, W: Write> Encoder<'a, 'b, W> {
                     self.begin_tuple()?;
                     SeqLike::Tuple
                 },
-                &Schema::Unit => {
-                    self.encode_unit()?;
-                    SeqLike::Unit
-                }
+                // the unit itself is encoded once known to have no elements
+                &Schema::Unit => SeqLike::Unit,
                 schema => bail!(
                     SchemaNonConformance,
                     Some(self.coder_state()),
@@ -264,7 +262,7 @@ impl<'a, 'b, 'c, W: Write> SeqLikeSerializer<'a, 'b, 'c, W> {
         match self.seq_like {
             SeqLike::Seq => self.encoder.finish_seq(),
             SeqLike::Tuple => self.encoder.finish_tuple(),
-            SeqLike::Unit => Ok(()),
+            SeqLike::Unit => self.encoder.encode_unit(),
         }
     }
 }
-- 
2.43.0


From 179e4e654060aba35b345f76aed5def9e1a57d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 17/17] fix: RecurseStack tells types apart by identity, not by
 function address

The addresses of T::schema are equal for different types whose functions the
compiler merges (it does in release builds) and can differ for one type that
is instantiated in several crates, so that the declared schema depended on
how the crate was built.
---
 binschema/src/known_schema.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index d53230e..29c342a 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -19,7 +19,9 @@ use std::{
         Bound,
     },
     borrow::Cow,
-    any::type_name,
+    any::{TypeId, type_name},
+    marker::PhantomData,
+    mem::transmute,
     fmt::{self, Debug, Formatter},
 };
 
@@ -34,7 +36,7 @@ pub struct RecurseStack<'a>(Option<Node<'a>>);
 
 #[derive(Copy, Clone)]
 struct Node<'a> {
-    val: Option<fn(RecurseStack) -> Schema>,
+    val: Option<TypeId>,
     dbg: &'static str,
     /// Whether this isn't a layer of the schema of its own, but the same one as
     /// the layer that's put on top of it.
@@ -42,6 +44,26 @@ struct Node<'a> {
     next: &'a Option<Node<'a>>,
 }
 
+/// Identity of a type, disregarding lifetimes. (The address of `T::schema` is
+/// not that: the compiler may merge equal functions and duplicate others.)
+fn type_id<T: ?Sized>() -> TypeId {
+    trait NonStatic {
+        fn get(&self) -> TypeId where Self: 'static;
+    }
+
+    impl<T: ?Sized> NonStatic for PhantomData<T> {
+        fn get(&self) -> TypeId where Self: 'static {
+            TypeId::of::<T>()
+        }
+    }
+
+    let phantom = PhantomData::<T>;
+    // safety: only the lifetime of the trait object is changed, and `get` does
+    //         nothing with the value
+    let phantom = unsafe { transmute::<&dyn NonStatic, &(dyn NonStatic + 'static)>(&phantom) };
+    NonStatic::get(phantom)
+}
+
 impl<'a> Default for RecurseStack<'a> {
     fn default() -> Self {
         RecurseStack::new()
@@ -55,7 +77,7 @@ impl<'a> RecurseStack<'a> {
 
     pub fn with_type_layer<'b, T: KnownSchema + ?Sized>(&'b self) -> RecurseStack<'b> {
         RecurseStack(Some(Node {
-            val: Some(T::schema),
+            val: Some(type_id::<T>()),
             dbg: type_name::<T>(),
             transparent: false,
             next: &self.0,
@@ -66,7 +88,7 @@ impl<'a> RecurseStack<'a> {
     /// newtype struct.
     pub fn with_newtype_layer<'b, T: KnownSchema + ?Sized>(&'b self) -> RecurseStack<'b> {
         RecurseStack(Some(Node {
-            val: Some(T::schema),
+            val: Some(type_id::<T>()),
             dbg: type_name::<T>(),
             transparent: true,
             next: &self.0,
@@ -88,7 +110,7 @@ impl<'a> RecurseStack<'a> {
 
         while let Some(curr) = opt_curr {
             if let Some(curr_val) = curr.val {
-                if curr_val as usize == T::schema as usize {
+                if curr_val == type_id::<T>() {
                     return Some(if curr.transparent {
                         // of the layer on top of it
                         usize::saturating_sub(level, 1)
-- 
2.43.0

