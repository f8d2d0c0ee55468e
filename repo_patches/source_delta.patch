From 29a55c5c0d292ef3175a38a639d1ed10330417f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 01/19] fix: looking up the first free pool index panicked

Pool::get accepted index == len(), which is one past the last slot, and
indexed out of bounds instead of returning InvalidCPItem.
---
 src/basic/constpool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 9861e95..3dcfb1f 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -349,7 +349,7 @@ impl Pool {
     /// If the index is 0 or greater than the size of the pool, an error is returned.
     pub fn get(&self, index: u16) -> Result<&Item> {
         // bounds checking
-        if index != 0 && index <= self.len() {
+        if index != 0 && index < self.len() {
             if let Some(ref item) = self.by_index[index as usize - 1] {
                 return Ok(item);
             }
-- 
2.43.0


From 726a93f6f0d60ab607e3bff5b72fbabb4daab361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 02/19] fix: pool iteration yielded every index one too high

The counter is already advanced before the item is returned; the first
item is at index 1, not 2.
---
 src/basic/constpool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 3dcfb1f..9b8574c 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -451,7 +451,7 @@ impl<'a> Iterator for PoolIter<'a> {
         self.index += 1;
         if let Some(rc_item) = self.iter.next() {
             if let Some(ref item) = *rc_item {
-                Some((self.index + 1, item))
+                Some((self.index, item))
             } else {
                 self.next()
             }
-- 
2.43.0


From 8385e162ce97455a3d267fe88d94a62d1731bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 03/19] fix: a default pool had length 0 and handed out index 0

An empty pool has the encoded length 1; the derived Default started at 0,
so the first pushed item got the invalid index 0.
---
 src/basic/constpool.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 9b8574c..fa3482f 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -309,13 +309,18 @@ pub enum ReferenceKind {
 /// A `Vec` and a `HashMap` is used internally to have fast lookups by index and value.
 /// To connect both, `Rc`s are used.
 /// As a result, we will have a little overhead, but this should be negligible.
-#[derive(Default)]
 pub struct Pool {
     length: u16,
     by_index: Vec<Option<Rc<Item>>>,
     by_entry: HashMap<Rc<Item>, u16>,
 }
 
+impl Default for Pool {
+    fn default() -> Self {
+        Pool::new()
+    }
+}
+
 impl Pool {
     pub fn new() -> Self {
         Pool {
-- 
2.43.0


From 88e53dcadaf90a62ae7933e6096fd0aacd65f989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 04/19] fix: pushing a long or double onto an almost full pool
 overflowed

A double-sized item needs two slots, so the length overflowed u16 when only
one was left. An item that is already present needs no slot at all and can
be returned even if the pool is full.
---
 src/basic/constpool.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index fa3482f..05edf13 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -397,11 +397,14 @@ impl Pool {
 
     /// Pushes an item on the pool.
     pub fn push(&mut self, item: Item) -> Result<u16> {
-        if self.len() == u16::max_value() {
+        let double = item.is_double();
+
+        // an item already present does not take any additional space
+        let size = if double { 2 } else { 1 };
+        if size > u16::max_value() - self.len() && !self.by_entry.contains_key(&item) {
             return Err(Error::CPTooLarge);
         }
 
-        let double = item.is_double();
         let length = &mut self.length;
 
         let rc_item = Rc::new(item);
-- 
2.43.0


From a10f4798042265ae139d8654a442a102d85ffe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 05/19] fix: equal constants in a class file shifted all
 following indices

The parser interned the constants it read, so a second equal constant took
no slot, and every index after it referred to a different item than in the
class file. Each entry now keeps the index it has in the file.
---
 src/basic/constpool.rs  | 39 +++++++++++++++++++++++----------------
 src/basic/parser/mod.rs |  2 +-
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 05edf13..dc91a3e 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -397,11 +397,20 @@ impl Pool {
 
     /// Pushes an item on the pool.
     pub fn push(&mut self, item: Item) -> Result<u16> {
+        // check if in pool, if not insert it
+        if let Some(&index) = self.by_entry.get(&item) {
+            return Ok(index);
+        }
+        self.push_duplicate(item)
+    }
+
+    /// Pushes an item on the pool, even if an equal one is already present.
+    /// A class file is allowed to contain duplicates, and every one has its own index.
+    pub(crate) fn push_duplicate(&mut self, item: Item) -> Result<u16> {
         let double = item.is_double();
 
-        // an item already present does not take any additional space
         let size = if double { 2 } else { 1 };
-        if size > u16::max_value() - self.len() && !self.by_entry.contains_key(&item) {
+        if size > u16::max_value() - self.len() {
             return Err(Error::CPTooLarge);
         }
 
@@ -412,20 +421,18 @@ impl Pool {
 
         let by_index = &mut self.by_index;
 
-        // check if in pool, if not insert it
-        Ok(*self.by_entry.entry(rc_item).or_insert_with(move || {
-            by_index.push(Some(Rc::clone(&rc_item1)));
-
-            let prev_length = *length;
-            if double {
-                // long and double take an additional space
-                by_index.push(None);
-                *length += 2;
-            } else {
-                *length += 1;
-            }
-            prev_length
-        }))
+        by_index.push(Some(Rc::clone(&rc_item1)));
+
+        let prev_length = *length;
+        if double {
+            // long and double take an additional space
+            by_index.push(None);
+            *length += 2;
+        } else {
+            *length += 1;
+        }
+        self.by_entry.entry(rc_item).or_insert(prev_length);
+        Ok(prev_length)
     }
 
     pub fn iter(&self) -> PoolIter {
diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index f620734..8eb620b 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -156,7 +156,7 @@ fn read_constant_pool(decoder: &mut Decoder) -> Result<Pool> {
             _ => return Err(Error::InvalidCPItem(index)),
         };
 
-        pool.push(item)?;
+        pool.push_duplicate(item)?;
         index += 1;
     }
 
-- 
2.43.0


From c9efe2875ed78386f0f1f3b22cd0acd6dfdd48a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 06/19] fix: class files with a long or double constant were
 not parsed

A long or double takes two indices of the constant pool, but was counted as
one, so the parser read beyond the end of the pool.
---
 src/basic/parser/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index 8eb620b..e11e4c7 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -157,7 +157,12 @@ fn read_constant_pool(decoder: &mut Decoder) -> Result<Pool> {
         };
 
         pool.push_duplicate(item)?;
-        index += 1;
+
+        // a long or double takes an additional space, which has to be in the pool as well
+        if pool.len() > size {
+            return Err(Error::InvalidCPItem(index));
+        }
+        index = pool.len();
     }
 
     Ok(pool)
-- 
2.43.0


From f58bc98180560deb3bdee521b4ccbd8568b3b72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 07/19] fix: the EnclosingMethod attribute was not recognised

Its name is EnclosingMethod, not EnclosingMethods, so it ended up as an
unknown attribute.
---
 src/basic/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index e11e4c7..157ca93 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -233,7 +233,7 @@ fn parse_attributes(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<A
                 Attribute::ConstantValue(index)
             }
             "Deprecated" => Attribute::Deprecated,
-            "EnclosingMethods" => parse_enclosing_method(&mut attr_decoder)?,
+            "EnclosingMethod" => parse_enclosing_method(&mut attr_decoder)?,
             "Exceptions" => parse_exceptions(&mut attr_decoder)?,
             "InnerClasses" => parse_inner_classes(&mut attr_decoder)?,
             "LineNumberTable" => parse_line_number_table(&mut attr_decoder)?,
-- 
2.43.0


From 40f2bd6fe6401aef812d2db14b8e31dc43d0bce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 08/19] fix: wide astore was rejected

The op code of astore is 0x3A, 0x40 is lstore_1, which has no wide form.
---
 src/basic/parser/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index 8227f42..3cd6517 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -329,7 +329,7 @@ fn parse_instruction(decoder: &mut Decoder, at: u32) -> Result<(u32, Instruction
             0x37 => LStore(decoder.read_u16()?),
             0x38 => FStore(decoder.read_u16()?),
             0x39 => DStore(decoder.read_u16()?),
-            0x40 => AStore(decoder.read_u16()?),
+            0x3A => AStore(decoder.read_u16()?),
             0x84 => {
                 let index = decoder.read_u16()?;
                 let value = decoder.read_i16()?;
-- 
2.43.0


From f15b6fa3623396d9f83da0fb56d70579b3a7ed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 09/19] fix: the table length of a local variable target is two
 bytes long

JVMS 4.7.20.1: localvar_target { u2 table_length; ... }. Type annotations
on local variables and resources could not be read.
---
 src/basic/parser/annotation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index b4bfced..d7717dd 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -155,7 +155,7 @@ fn parse_target_type(decoder: &mut Decoder) -> Result<TargetType> {
 
 /// Parses the local variables of a local variable target type
 fn parse_local_variable(decoder: &mut Decoder) -> Result<Vec<LocalVariableTarget>> {
-    let length = decoder.read_u8()?;
+    let length = decoder.read_u16()?;
     let mut table = Vec::with_capacity(length as usize);
 
     for _ in 0..length {
-- 
2.43.0


From 5656b23dd18f2b69a2308627c491cbdf50413c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 10/19] fix: the parameter count of MethodParameters is one
 byte long

JVMS 4.7.24: MethodParameters_attribute { ...; u1 parameters_count; ... }.
No class file compiled with parameter names could be parsed.
---
 src/basic/parser/method.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/method.rs b/src/basic/parser/method.rs
index 01ca8a6..22333a7 100644
--- a/src/basic/parser/method.rs
+++ b/src/basic/parser/method.rs
@@ -155,7 +155,7 @@ fn parse_verification_type(decoder: &mut Decoder) -> Result<VerificationType> {
 
 /// Parses the `MethodParameters` attribute.
 pub fn parse_method_parameters(decoder: &mut Decoder) -> Result<Attribute> {
-    let count = decoder.read_u16()?;
+    let count = decoder.read_u8()?;
     let mut params = Vec::with_capacity(count as usize);
     for _ in 0..count {
         let name = decoder.read_u16()?;
-- 
2.43.0


From 63a2183fddaa28506e7bf4c77bada23e84a3863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 11/19] fix: the MODULE and MANDATED flags included the PUBLIC
 flag

Both are 0x8000. With the additional bit, a module or a mandated parameter
was not recognised as such.
---
 src/basic/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basic/tree.rs b/src/basic/tree.rs
index ff92693..2c7e173 100644
--- a/src/basic/tree.rs
+++ b/src/basic/tree.rs
@@ -110,8 +110,8 @@ bitflags! {
         const SYNTHETIC    = 0b0001_0000_0000_0000;
         const ANNOTATION   = 0b0010_0000_0000_0000;
         const ENUM         = 0b0100_0000_0000_0000;
-        const MODULE       = 0b1000_0000_0000_0001;
-        const MANDATED     = 0b1000_0000_0000_0001;
+        const MODULE       = 0b1000_0000_0000_0000;
+        const MANDATED     = 0b1000_0000_0000_0000;
     }
 }
 
-- 
2.43.0


From e4ba931a601f3358c3c1b939b05f72ca66d1b514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 12/19] fix: reserve memory for the arguments of a bootstrap
 method only

The arguments of every bootstrap method were given the capacity of the
number of bootstrap methods, so 256 KiB of input reserved more than 8 GiB.
---
 src/basic/parser/class.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/class.rs b/src/basic/parser/class.rs
index a9f39e0..0d8a972 100644
--- a/src/basic/parser/class.rs
+++ b/src/basic/parser/class.rs
@@ -7,8 +7,8 @@ pub fn parse_bootstrap_methods(decoder: &mut Decoder) -> Result<Attribute> {
     let mut bootstrap_methods = Vec::with_capacity(count as usize);
     for _ in 0..count {
         let method_ref = decoder.read_u16()?;
-        let mut arguments = Vec::with_capacity(count as usize);
         let count = decoder.read_u16()?;
+        let mut arguments = Vec::with_capacity(count as usize);
         for _ in 0..count {
             arguments.push(decoder.read_u16()?);
         }
-- 
2.43.0


From abd91d091c822c0e72053929fff85c57692ddb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 13/19] fix: invalid tableswitch bounds panicked or exhausted
 the memory

high - low + 1 overflowed, or was negative and then used as a capacity, and
valid looking bounds reserved up to 8 GiB before a single offset was read.
---
 src/basic/parser/code.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index 3cd6517..c33a7c2 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -248,8 +248,13 @@ fn parse_instruction(decoder: &mut Decoder, at: u32) -> Result<(u32, Instruction
             let low = decoder.read_i32()?;
             let high = decoder.read_i32()?;
 
-            let mut offsets = Vec::with_capacity((high - low + 1) as usize);
-            for _ in low..(high + 1) {
+            if low > high {
+                return Err(Error::InvalidInstruction { op_code, at });
+            }
+
+            // the count may not fit in an i32, and there may be less offsets than promised
+            let mut offsets = Vec::new();
+            for _ in i64::from(low)..i64::from(high) + 1 {
                 offsets.push(decoder.read_i32()?);
             }
 
-- 
2.43.0


From 1192ef79f6243feac804b3a21b995c8221d45512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 14/19] fix: malformed modified UTF-8 was decoded to arbitrary
 characters

Continuation bytes were not checked, and whatever followed a high surrogate
was taken as its low surrogate. Both are now reported as InvalidUTF8.
---
 src/basic/parser/decode.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/basic/parser/decode.rs b/src/basic/parser/decode.rs
index 8029079..d812151 100644
--- a/src/basic/parser/decode.rs
+++ b/src/basic/parser/decode.rs
@@ -123,19 +123,23 @@ impl<'a> Decoder<'a> {
             } else if r1 >= 0xC0 && r1 < 0xE0 && i >= 2 {
                 // 2 bytes
                 i -= 2;
-                let r2 = u32::from(self.read_u8()?);
+                let r2 = self.read_str_continuation()?;
                 (r1 & 0x1F) << 6 | (r2 & 0x3F)
             } else if r1 >= 0xE0 && r1 < 0xF0 && i >= 3 {
                 i -= 3;
-                let r2 = u32::from(self.read_u8()?);
-                let r3 = u32::from(self.read_u8()?);
+                let r2 = self.read_str_continuation()?;
+                let r3 = self.read_str_continuation()?;
                 if r1 == 0xED && r2 >= 0xA0 && r2 <= 0xAF {
                     if i >= 3 {
                         i -= 3;
 
-                        self.read_u8()?;
+                        // a high surrogate has to be followed by a low surrogate
+                        let r4 = u32::from(self.read_u8()?);
                         let r5 = u32::from(self.read_u8()?);
-                        let r6 = u32::from(self.read_u8()?);
+                        if r4 != 0xED || r5 < 0xB0 || r5 > 0xBF {
+                            return Err(Error::InvalidUTF8);
+                        }
+                        let r6 = self.read_str_continuation()?;
                         // r1 and r4 can be ignored
                         0x1_0000 + ((r2 & 0x0F) << 16) + ((r3 & 0x3F) << 10) + ((r5 & 0x0F) << 6)
                             + (r6 & 0x3F)
@@ -158,6 +162,16 @@ impl<'a> Decoder<'a> {
         Ok(out)
     }
 
+    /// Reads a byte of a modified UTF-8 string, which is not the first one of a character
+    fn read_str_continuation(&mut self) -> Result<u32> {
+        let byte = u32::from(self.read_u8()?);
+        if byte & 0xC0 == 0x80 {
+            Ok(byte)
+        } else {
+            Err(Error::InvalidUTF8)
+        }
+    }
+
     /// Checks for bounds
     fn check(&self, location: usize) -> Result<()> {
         if location <= self.limit {
-- 
2.43.0


From 0ce5e6b1ec9d82d67a4a6b57a9a1e34ed9607996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 15/19] fix: do not reserve memory for nested tables before
 reading their entries

Arrays, annotations and attributes can contain each other. Each level
reserved space for up to 65535 entries, so a few KiB of nested counts
reserved gigabytes.
---
 src/basic/parser/annotation.rs | 4 ++--
 src/basic/parser/mod.rs        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index d7717dd..f650694 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -34,7 +34,7 @@ pub fn parse_type_annotations(decoder: &mut Decoder) -> Result<Vec<TypeAnnotatio
 fn parse_annotation(decoder: &mut Decoder) -> Result<Annotation> {
     let type_index = decoder.read_u16()?;
     let count = decoder.read_u16()?;
-    let mut element_value_pairs = Vec::with_capacity(count as usize);
+    let mut element_value_pairs = Vec::new();
 
     for _ in 0..count {
         let name_index = decoder.read_u16()?;
@@ -75,7 +75,7 @@ pub fn parse_element_value(decoder: &mut Decoder) -> Result<ElementValue> {
         )?))),
         b'[' => {
             let count = decoder.read_u16()?;
-            let mut element_values = Vec::with_capacity(count as usize);
+            let mut element_values = Vec::new();
 
             for _ in 0..count {
                 element_values.push(parse_element_value(decoder)?);
diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index 157ca93..ce0ffeb 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -213,7 +213,7 @@ fn parse_methods(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Meth
 /// Parses all attributes
 fn parse_attributes(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Attribute>> {
     let count = decoder.read_u16()?;
-    let mut attributes = Vec::with_capacity(count as usize);
+    let mut attributes = Vec::new();
     for _ in 0..count {
         let name_index = decoder.read_u16()?;
         let name = constant_pool.get_utf8(name_index)?;
-- 
2.43.0


From 9275b8af0da3004d622d9992f343151c7069a616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 16/19] fix: deeply nested element values or codes overflowed
 the stack

Arrays and annotations as element values, and Code attributes inside of Code
attributes are read recursively. 30000 levels fit in 90 KB of input and
aborted the process. More than 64 levels are now reported as LimitExceeded.
---
 src/basic/parser/annotation.rs | 11 ++++++++---
 src/basic/parser/code.rs       |  2 ++
 src/basic/parser/decode.rs     | 23 +++++++++++++++++++++++
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index f650694..116531c 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -70,16 +70,21 @@ pub fn parse_element_value(decoder: &mut Decoder) -> Result<ElementValue> {
                 const_name,
             })
         }
-        b'@' => Ok(ElementValue::Annotation(Box::new(parse_annotation(
-            decoder,
-        )?))),
+        b'@' => {
+            decoder.enter()?;
+            let annotation = parse_annotation(decoder)?;
+            decoder.leave();
+            Ok(ElementValue::Annotation(Box::new(annotation)))
+        }
         b'[' => {
             let count = decoder.read_u16()?;
             let mut element_values = Vec::new();
 
+            decoder.enter()?;
             for _ in 0..count {
                 element_values.push(parse_element_value(decoder)?);
             }
+            decoder.leave();
 
             Ok(ElementValue::Array(element_values))
         }
diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index c33a7c2..8b3c3cb 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -49,7 +49,9 @@ pub fn parse_code(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Attribu
         });
     }
 
+    decoder.enter()?;
     let attributes = parse_attributes(decoder, constant_pool)?;
+    decoder.leave();
 
     Ok(Attribute::Code {
         max_stack,
diff --git a/src/basic/parser/decode.rs b/src/basic/parser/decode.rs
index d812151..5586dd0 100644
--- a/src/basic/parser/decode.rs
+++ b/src/basic/parser/decode.rs
@@ -5,10 +5,15 @@ use result::*;
 use byteorder::{BigEndian, ByteOrder};
 use std::char;
 
+/// The maximum depth of annotations, arrays of element values and codes inside of each other.
+/// Reading them is recursive, so without a limit the stack could be exhausted.
+const MAX_DEPTH: usize = 64;
+
 pub struct Decoder<'a> {
     bytes: &'a [u8],
     cursor: &'a mut usize,
     limit: usize,
+    depth: usize,
 }
 
 impl<'a> Decoder<'a> {
@@ -19,6 +24,7 @@ impl<'a> Decoder<'a> {
             bytes,
             cursor,
             limit: bytes.len(),
+            depth: 0,
         }
     }
 
@@ -30,9 +36,26 @@ impl<'a> Decoder<'a> {
             bytes: self.bytes,
             cursor: self.cursor,
             limit: end,
+            depth: self.depth,
         })
     }
 
+    /// Enters a structure, which can contain itself,
+    /// and returns an error if this is nested too deeply
+    pub fn enter(&mut self) -> Result<()> {
+        if self.depth < MAX_DEPTH {
+            self.depth += 1;
+            Ok(())
+        } else {
+            Err(Error::LimitExceeded)
+        }
+    }
+
+    /// Leaves a structure, which can contain itself
+    pub fn leave(&mut self) {
+        self.depth -= 1;
+    }
+
     /// Removes the limit and returns an error if the limit was exceeded, or not reached
     pub fn remove_limit(self) -> Result<()> {
         if self.limit == *self.cursor {
-- 
2.43.0


From 930f6eff1cc418594d8980da839f3285b0a6060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 17/19] fix: an exhausted iterator over a full pool overflowed
 its index

---
 src/basic/constpool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index dc91a3e..d45ff42 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -463,8 +463,8 @@ impl<'a> Iterator for PoolIter<'a> {
     type Item = (u16, &'a Item);
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.index += 1;
         if let Some(rc_item) = self.iter.next() {
+            self.index += 1;
             if let Some(ref item) = *rc_item {
                 Some((self.index, item))
             } else {
-- 
2.43.0


From 2cbf5ba873627b2bf54468e6a44cc6a3627b8ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 18/19] fix: the name of every attribute was copied, however
 long it is

---
 src/basic/parser/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index ce0ffeb..9fc6bf1 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -216,13 +216,16 @@ fn parse_attributes(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<A
     let mut attributes = Vec::new();
     for _ in 0..count {
         let name_index = decoder.read_u16()?;
-        let name = constant_pool.get_utf8(name_index)?;
+        let name = match *constant_pool.get(name_index)? {
+            Item::UTF8(ref name) => name,
+            _ => return Err(Error::InvalidCPItem(name_index)),
+        };
         let length = decoder.read_u32()?;
 
         // limit attribute length
         let mut attr_decoder = decoder.limit(length as usize)?;
 
-        let attribute = match name.as_ref() {
+        let attribute = match name.as_str() {
             "AnnotationDefault" => {
                 Attribute::AnnotationDefault(parse_element_value(&mut attr_decoder)?)
             }
-- 
2.43.0


From 5f9fa6b8b280f386c1a7a126f23de4e250920f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 19/19] fix: reject lengths which exceed the address space on
 32-bit platforms

The end of an attribute was calculated by adding its length to the cursor,
which overflowed for lengths near 2^32 if usize has 32 bits.
---
 src/basic/parser/decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/basic/parser/decode.rs b/src/basic/parser/decode.rs
index 5586dd0..075b3b6 100644
--- a/src/basic/parser/decode.rs
+++ b/src/basic/parser/decode.rs
@@ -30,7 +30,7 @@ impl<'a> Decoder<'a> {
 
     /// Limits the decoder to `to` after the cursor
     pub fn limit(&mut self, to: usize) -> Result<Decoder> {
-        let end = *self.cursor + to;
+        let end = self.cursor.saturating_add(to);
         self.check(end)?;
         Ok(Decoder {
             bytes: self.bytes,
@@ -67,7 +67,7 @@ impl<'a> Decoder<'a> {
 
     /// Skips a certain amount of bytes and returns an error if it exceeded the limit
     pub fn skip(&mut self, to: usize) -> Result<()> {
-        let end = *self.cursor + to;
+        let end = self.cursor.saturating_add(to);
         self.check(end)?;
         *self.cursor = end;
         Ok(())
@@ -81,7 +81,7 @@ impl<'a> Decoder<'a> {
     /// Reads a specific amount of bytes.
     /// If not enough bytes are available, an EOF error is returned.
     pub fn read_bytes(&mut self, count: usize) -> Result<&'a [u8]> {
-        let end = *self.cursor + count;
+        let end = self.cursor.saturating_add(count);
         self.check(end)?;
 
         let bytes = &self.bytes[*self.cursor..end];
-- 
2.43.0

