From e1e1f6c335c993a8d305eed0d6d78ca376cc07fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 01/32] fix: access cells and floats at unaligned addresses
 without undefined behaviour

---
 src/memory.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index 61f3cc4..06b2aee 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -129,15 +129,15 @@ pub trait Memory {
     }
 
     unsafe fn get_usize(&self, addr: usize) -> usize {
-        *(addr as *mut usize)
+        (addr as *mut usize).read_unaligned()
     }
 
     unsafe fn get_isize(&self, addr: usize) -> isize {
-        *(addr as *mut isize)
+        (addr as *mut isize).read_unaligned()
     }
 
     unsafe fn get_f64(&self, addr: usize) -> f64 {
-        *(addr as *mut f64)
+        (addr as *mut f64).read_unaligned()
     }
 
     unsafe fn get_str(&self, addr: usize) -> &str {
@@ -178,7 +178,7 @@ pub trait Memory {
     }
 
     unsafe fn put_usize(&mut self, v: usize, pos: usize) {
-        *(pos as *mut usize) = v;
+        (pos as *mut usize).write_unaligned(v);
     }
 
     fn compile_usize(&mut self, v: usize) {
@@ -200,7 +200,7 @@ pub trait Memory {
     }
 
     unsafe fn put_isize(&mut self, v: isize, pos: usize) {
-        *(pos as *mut isize) = v;
+        (pos as *mut isize).write_unaligned(v);
     }
 
     fn compile_isize(&mut self, v: isize) {
@@ -215,7 +215,7 @@ pub trait Memory {
         }
     }
     unsafe fn put_f64(&mut self, v: f64, pos: usize) {
-        *(pos as *mut f64) = v;
+        (pos as *mut f64).write_unaligned(v);
     }
 
     fn compile_f64(&mut self, v: f64) {
-- 
2.43.0


From a6c7bb2dc38b7e8404250281fae68507d519d1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 02/32] fix: address checks of @ ! and move do not overflow

---
 src/core.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 7b1c475..f4507d8 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2780,7 +2780,7 @@ pub trait Core: Sized {
     /// `x` is the value stored at `a-addr`.
     fn fetch(&mut self) {
         let t = self.s_stack().pop() as usize;
-        if self.data_space().start() < t && t + mem::size_of::<isize>() <= self.data_space().limit()
+        if self.data_space().start() < t && t <= self.data_space().limit() - mem::size_of::<isize>()
         {
             let value = unsafe { self.data_space().get_isize(t as usize) as isize };
             self.s_stack().push(value);
@@ -2795,7 +2795,7 @@ pub trait Core: Sized {
     fn store(&mut self) {
         let (n, t) = self.s_stack().pop2();
         let t = t as usize;
-        if self.data_space().start() < t && t + mem::size_of::<isize>() <= self.data_space().limit()
+        if self.data_space().start() < t && t <= self.data_space().limit() - mem::size_of::<isize>()
         {
             unsafe { self.data_space().put_isize(n as isize, t as usize) };
         } else {
@@ -2846,9 +2846,11 @@ pub trait Core: Sized {
             let addr1 = addr1 as usize;
             let addr2 = addr2 as usize;
             if self.data_space().start() < addr1
-                && addr1 + u <= self.data_space().limit()
+                && addr1 <= self.data_space().limit()
+                && u <= self.data_space().limit() - addr1
                 && self.data_space().start() < addr2
-                && addr2 + u <= self.data_space().limit()
+                && addr2 <= self.data_space().limit()
+                && u <= self.data_space().limit() - addr2
             {
                 unsafe {
                     if addr1 < addr2 {
-- 
2.43.0


From 31a52882fbb774e20dcff970eec99da1abf15256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 03/32] fix: address arithmetic wraps instead of panicking

---
 src/core.rs   | 6 +++---
 src/float.rs  | 4 ++--
 src/memory.rs | 8 ++++----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index f4507d8..35b1ad1 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2460,7 +2460,7 @@ pub trait Core: Sized {
     ///Add the size in address units of a character to `c-addr1`, giving `c-addr2`.
     fn char_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<u8>() as isize);
+        self.s_stack().push(v.wrapping_add(mem::size_of::<u8>() as isize));
     }
 
     /// Run-time: ( a-addr1 -- a-addr2 )
@@ -2468,7 +2468,7 @@ pub trait Core: Sized {
     /// Add the size in address units of a cell to `a-addr1`, giving `a-addr2`.
     fn cell_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<isize>() as isize);
+        self.s_stack().push(v.wrapping_add(mem::size_of::<isize>() as isize));
     }
 
     /// Run-time: ( n1 -- n2 )
@@ -2476,7 +2476,7 @@ pub trait Core: Sized {
     /// `n2` is the size in address units of `n1` cells.
     fn cells(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v * mem::size_of::<isize>() as isize);
+        self.s_stack().push(v.wrapping_mul(mem::size_of::<isize>() as isize));
     }
 
     fn swap(&mut self) {
diff --git a/src/float.rs b/src/float.rs
index e52b370..1455104 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -74,7 +74,7 @@ pub trait Float: Core {
     /// Add the size in address units of a float to `a-addr1`, giving `a-addr2`.
     fn float_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<f64>() as isize);
+        self.s_stack().push(v.wrapping_add(mem::size_of::<f64>() as isize));
     }
 
     /// Run-time: ( n1 -- n2 )
@@ -82,7 +82,7 @@ pub trait Float: Core {
     /// `n2` is the size in address units of `n1` floats.
     fn floats(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v * mem::size_of::<f64>() as isize);
+        self.s_stack().push(v.wrapping_mul(mem::size_of::<f64>() as isize));
     }
 
     /// Run-time: ( addr -- a-addr )
diff --git a/src/memory.rs b/src/memory.rs
index 06b2aee..c70757a 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -268,7 +268,7 @@ pub trait Memory {
     /// First aligned address greater than or equal to `pos`.
     fn aligned(pos: usize) -> usize {
         let align = mem::align_of::<isize>();
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the data-space pointer is not aligned, reserve enough space to align it.
@@ -280,7 +280,7 @@ pub trait Memory {
     /// First float-aligned address greater than or equal to `pos`.
     fn aligned_f64(pos: usize) -> usize {
         let align = mem::align_of::<f64>();
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the data-space pointer is not float-aligned, reserve enough space to align it.
@@ -292,7 +292,7 @@ pub trait Memory {
     /// First address aligned to 16-byte boundary greater than or equal to `pos`.
     fn aligned_16bytes(pos: usize) -> usize {
         let align = 16;
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the space pointer is not aligned to 16-byte boundary, reserve enough space to align it.
@@ -302,7 +302,7 @@ pub trait Memory {
     }
 
     fn allot(&mut self, v: isize) {
-        let here = (self.here() as isize + v) as usize;
+        let here = (self.here() as isize).wrapping_add(v) as usize;
         self.set_here(here);
     }
 
-- 
2.43.0


From 4a69cbd405130aceb914d1855fd8505f702fc1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 04/32] fix: , and compile, report a full data space instead of
 panicking

---
 src/core.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 35b1ad1..e08e2bd 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -4,7 +4,7 @@
 
 extern crate libc;
 use exception::{
-    self, Exception, ABORT, CONTROL_STRUCTURE_MISMATCH, DIVISION_BY_ZERO,
+    self, Exception, ABORT, CONTROL_STRUCTURE_MISMATCH, DICTIONARY_OVERFLOW, DIVISION_BY_ZERO,
     FLOATING_POINT_STACK_OVERFLOW, FLOATING_POINT_STACK_UNDERFLOW,
     INTERPRETING_A_COMPILE_ONLY_WORD, INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT,
     RETURN_STACK_OVERFLOW, RETURN_STACK_UNDERFLOW, STACK_OVERFLOW, STACK_UNDERFLOW, UNDEFINED_WORD,
@@ -2964,7 +2964,11 @@ pub trait Core: Sized {
     /// Append the execution semantics of the definition represented by xt to the execution semantics of the current definition.
     fn compile_comma(&mut self) {
         let v = self.s_stack().pop();
-        self.data_space().compile_isize(v as isize);
+        if self.data_space().limit() - self.data_space().here() < mem::size_of::<isize>() {
+            self.abort_with(DICTIONARY_OVERFLOW);
+        } else {
+            self.data_space().compile_isize(v as isize);
+        }
     }
 
     /// Run-time: ( -- addr )
@@ -3009,7 +3013,11 @@ pub trait Core: Sized {
     /// data-space pointer is not aligned prior to execution of `,`.
     fn comma(&mut self) {
         let v = self.s_stack().pop();
-        self.data_space().compile_isize(v as isize);
+        if self.data_space().limit() - self.data_space().here() < mem::size_of::<isize>() {
+            self.abort_with(DICTIONARY_OVERFLOW);
+        } else {
+            self.data_space().compile_isize(v as isize);
+        }
     }
 
     fn p_to_r(&mut self) {
-- 
2.43.0


From 87c6ec374cc546fd70d95abf87c57057918b0cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 05/32] fix: float exponents beyond the range of i32 or of
 powers of ten

---
 src/core.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index e08e2bd..f6b79ec 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2232,9 +2232,21 @@ pub trait Core: Sized {
             if self.references().idx_flit == 0 {
                 self.set_error(Some(UNSUPPORTED_OPERATION));
             } else {
-                let value = (significand_sign as f64)
-                    * (integer_part as f64 + fraction_part)
-                    * ((10.0f64).powi((exponent_sign.wrapping_mul(exponent_part)) as i32) as f64);
+                let mut value = (significand_sign as f64) * (integer_part as f64 + fraction_part);
+                // The exponent may exceed the range of i32, and powers of ten that of f64.
+                let mut exponent = exponent_sign
+                    .wrapping_mul(exponent_part)
+                    .max(-1000)
+                    .min(1000) as i32;
+                while exponent > 300 {
+                    value *= 1e300;
+                    exponent -= 300;
+                }
+                while exponent < -300 {
+                    value *= 1e-300;
+                    exponent += 300;
+                }
+                value *= (10.0f64).powi(exponent);
                 if self.state().is_compiling {
                     self.compile_float(value);
                 } else {
-- 
2.43.0


From 55e69f529294c44a7495afc04204f4071a510a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 06/32] fix: a base prefix without digits is not a number

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index cd15872..0d0d9bf 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -57,6 +57,9 @@ pub fn uint_in_base(input: &[u8], base: isize) -> IResult<isize> {
     let mut len = 0;
     let mut bytes = input;
     let mut value = 0isize;
+    if bytes.is_empty() {
+        return IResult::Err(RESULT_OUT_OF_RANGE);
+    }
     for c in bytes.iter() {
         let d;
         if b'0' <= *c && *c <= b'9' {
-- 
2.43.0


From cc13241b6652fa0a9e01a3dc592d04bb75c9ca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:49 +0000
Subject: [PATCH 07/32] fix: field widths near the smallest integer do not
 overflow in .r and f.r

---
 src/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index feece3d..8a4dabd 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -156,7 +156,7 @@ pub trait Output: Core {
                 }
             }
             if valid_base {
-                for _ in 0..(n2 - self.hold_buffer().len() as isize) {
+                for _ in 0..n2.saturating_sub(self.hold_buffer().len() as isize) {
                     buf.push(' ');
                 }
                 buf.push_str(self.hold_buffer());
@@ -199,7 +199,7 @@ pub trait Output: Core {
                 16 => write!(self.hold_buffer(), "{:.16}", r).unwrap(),
                 _ => write!(self.hold_buffer(), "{:.17}", r).unwrap(),
             }
-            for _ in 0..(n1 - self.hold_buffer().len() as isize) {
+            for _ in 0..n1.saturating_sub(self.hold_buffer().len() as isize) {
                 buf.push(' ');
             }
             buf.push_str(self.hold_buffer());
-- 
2.43.0


From ccade90620564554a7203081226027b3acc12c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:52 +0000
Subject: [PATCH 08/32] fix: _skip advances past the bytes of a multi-byte
 delimiter

---
 src/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index f6b79ec..06a361f 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1815,7 +1815,7 @@ pub trait Core: Sized {
                 match char_indices.next() {
                     Some((idx, ch)) => {
                         if ch as isize == v {
-                            cnt += 1;
+                            cnt = idx + ch.len_utf8();
                         } else {
                             break;
                         }
-- 
2.43.0


From aba5d43411ae0196665c6204d983361102042838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:54 +0000
Subject: [PATCH 09/32] fix: s" and ." at the end of a line do not panic

---
 src/output.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 8a4dabd..c6635f0 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -82,11 +82,11 @@ pub trait Output: Core {
     fn s_quote(&mut self) {
         let input_buffer = self.input_buffer().take().unwrap();
         {
-            let source = &input_buffer[self.state().source_index + 1..input_buffer.len()];
+            // ignore the space following S", if there is one
+            let start = (self.state().source_index + 1).min(input_buffer.len());
+            let source = &input_buffer[start..];
             let s = match source.find('"') {
-                Some(n) => {
-                    &input_buffer[self.state().source_index + 1..self.state().source_index + 1 + n]
-                }
+                Some(n) => &source[..n],
                 None => source,
             };
             let cnt = s.len();
@@ -95,8 +95,7 @@ pub trait Output: Core {
             compilation_semantics(self, idx);
             self.data_space().compile_str(s);
             self.data_space().align();
-            // ignore the space following S"
-            self.state().source_index = self.state().source_index + 1 + cnt as usize + 1;
+            self.state().source_index = (start + cnt + 1).min(input_buffer.len());
         }
         self.set_input_buffer(input_buffer);
     }
-- 
2.43.0


From 659266a5e0e14591445629dfd0446a5c9d7a1eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:27 +0000
Subject: [PATCH 10/32] fix: parsing without an input buffer or beyond its end
 does not panic

---
 src/core.rs   | 23 +++++++++++++----------
 src/output.rs | 12 ++++++++----
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 06a361f..de95c01 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1698,8 +1698,7 @@ pub trait Core: Sized {
         let mut last_token = self.last_token().take().expect("token");
         last_token.clear();
         if let Some(input_buffer) = self.input_buffer().take() {
-            if self.state().source_index < input_buffer.len() {
-                let source = &input_buffer[self.state().source_index..];
+            if let Some(source) = input_buffer.get(self.state().source_index..) {
                 let mut cnt = source.len();
                 let mut char_indices = source.char_indices();
                 loop {
@@ -1767,12 +1766,14 @@ pub trait Core: Sized {
     ///
     /// Parse ccc delimited by the delimiter char.
     fn parse(&mut self) {
-        let input_buffer = self.input_buffer().take().expect("input buffer");
+        let buffer = self.input_buffer().take();
         let v = self.s_stack().pop();
         let mut last_token = self.last_token().take().expect("token");
         last_token.clear();
-        {
-            let source = &input_buffer[self.state().source_index..];
+        if let Some(input_buffer) = buffer {
+            let source = input_buffer
+                .get(self.state().source_index..)
+                .unwrap_or("");
             let mut cnt = source.len();
             let mut char_indices = source.char_indices();
             loop {
@@ -1796,19 +1797,21 @@ pub trait Core: Sized {
                 }
             }
             self.state().source_index = self.state().source_index + cnt;
+            self.set_input_buffer(input_buffer);
         }
         self.set_last_token(last_token);
-        self.set_input_buffer(input_buffer);
     }
 
     /// Run-time: ( char "ccc" -- )
     ///
     /// Skip all of the delimiter char.
     fn _skip(&mut self) {
-        let input_buffer = self.input_buffer().take().expect("input buffer");
+        let buffer = self.input_buffer().take();
         let v = self.s_stack().pop();
-        {
-            let source = &input_buffer[self.state().source_index..];
+        if let Some(input_buffer) = buffer {
+            let source = input_buffer
+                .get(self.state().source_index..)
+                .unwrap_or("");
             let mut cnt = 0;
             let mut char_indices = source.char_indices();
             loop {
@@ -1826,8 +1829,8 @@ pub trait Core: Sized {
                 }
             }
             self.state().source_index = self.state().source_index + cnt;
+            self.set_input_buffer(input_buffer);
         }
-        self.set_input_buffer(input_buffer);
     }
 
     fn imm_paren(&mut self) {
diff --git a/src/output.rs b/src/output.rs
index c6635f0..c5d638c 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -80,11 +80,13 @@ pub trait Output: Core {
     /// Return c-addr and u describing a string consisting of the characters ccc. A program
     /// shall not alter the returned string.
     fn s_quote(&mut self) {
-        let input_buffer = self.input_buffer().take().unwrap();
+        let buffer = self.input_buffer().take();
         {
+            let input_buffer = buffer.as_ref().map_or("", |s| s.as_str());
             // ignore the space following S", if there is one
-            let start = (self.state().source_index + 1).min(input_buffer.len());
-            let source = &input_buffer[start..];
+            let start = self.state().source_index.saturating_add(1);
+            let start = start.min(input_buffer.len());
+            let source = input_buffer.get(start..).unwrap_or("");
             let s = match source.find('"') {
                 Some(n) => &source[..n],
                 None => source,
@@ -97,7 +99,9 @@ pub trait Output: Core {
             self.data_space().align();
             self.state().source_index = (start + cnt + 1).min(input_buffer.len());
         }
-        self.set_input_buffer(input_buffer);
+        if let Some(input_buffer) = buffer {
+            self.set_input_buffer(input_buffer);
+        }
     }
 
     /// Compilation: ( "ccc<quote>" -- )
-- 
2.43.0


From 4e333b1865a5e9ebbcfcb65abbae0b3362db6f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:02 +0000
Subject: [PATCH 11/32] fix: postpone of an immediate word executes it instead
 of compiling it

---
 src/core.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index de95c01..65a7d9a 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1868,9 +1868,14 @@ pub trait Core: Sized {
             match self.find(&last_token) {
                 Some(xt) => {
                     self.set_last_token(last_token);
-                    self.compile_integer(xt as isize);
-                    let idx = self.references().idx__postpone;
-                    self.compile_word(idx);
+                    if self.wordlist()[xt].is_immediate() {
+                        // Its compilation semantics is to be executed.
+                        self.compile_word(xt);
+                    } else {
+                        self.compile_integer(xt as isize);
+                        let idx = self.references().idx__postpone;
+                        self.compile_word(idx);
+                    }
                 }
                 None => {
                     self.set_last_token(last_token);
-- 
2.43.0


From 5e53367c757f7d7862bebc9b3d700bbe8a210bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:29 +0000
Subject: [PATCH 12/32] fix: does> leaves no stray cell in the data of the
 created word

---
 src/core.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 65a7d9a..c691838 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2443,7 +2443,6 @@ pub trait Core: Sized {
     /// Run time behavior of does>.
     fn _does(&mut self) {
         let doer = self.state().instruction_pointer + mem::size_of::<isize>();
-        self.data_space().compile_usize(doer);
         let def = self.wordlist().last;
         let word = &mut self.wordlist_mut()[def];
         word.action = Core::xdoes;
-- 
2.43.0


From a12ee881692b06e50f54aa5cc3eed4218a599d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:18 +0000
Subject: [PATCH 13/32] fix: an invalid or aborting error handler does not
 recurse without end

---
 src/core.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index c691838..f311059 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -3226,7 +3226,10 @@ pub trait Core: Sized {
         self.set_error(Some(e));
         let h = self.handler();
         self.state().aborted_word_pointer = self.state().word_pointer;
+        // Handler `h` may be invalid, or abort: it is not to handle itself.
+        self.set_handler(0);
         self.execute_word(h);
+        self.set_handler(h);
     }
 
     /// Abort the inner loop with an exception, reset VM and clears stacks.
-- 
2.43.0


From 3bcce868be2f22c14771ccaf9fe77d40a9f0e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 14/32] fix: .backtrace with an aborted word that does not
 exist does not panic

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 21ee4d2..528c57a 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -94,7 +94,7 @@ pub trait Tools: Output {
             }
 
             let xt = self.state().aborted_word_pointer;
-            if xt != 0 {
+            if xt != 0 && xt < self.wordlist().len() {
                 let nfa = self.wordlist()[xt].nfa();
                 let name = unsafe { self.data_space().get_str(nfa) };
                 write!(buf, "{} ", name).unwrap();
-- 
2.43.0


From 7eba2c32ccc7cb17b5285f81db9ff1fe2418b12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:22 +0000
Subject: [PATCH 15/32] fix: task numbers near the smallest integer are
 rejected without overflow

---
 src/core.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index f311059..e7e9ae3 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1627,7 +1627,7 @@ pub trait Core: Sized {
     }
 
     fn activate(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             // Wake task `i`.
             self.set_awake(i, true);
@@ -3257,7 +3257,7 @@ pub trait Core: Sized {
 
     /// Suspend task `i`. `suspend ( i -- )`
     fn suspend(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             self.set_awake(i as usize, false);
         } else {
@@ -3267,7 +3267,7 @@ pub trait Core: Sized {
 
     /// Resume task `i`. `resume ( i -- )`
     fn resume(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             self.set_awake(i as usize, true);
         } else {
-- 
2.43.0


From 5ff87ef0ec20fc6a09a3b2b075d675b4f59302df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:20 +0000
Subject: [PATCH 16/32] fix: returning to an address near the top of memory
 does not overflow

---
 src/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index e7e9ae3..d3dfb69 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -801,7 +801,7 @@ pub trait Core: Sized {
     fn run(&mut self) {
         let mut ip = self.state().instruction_pointer;
         while self.data_space().start() <= ip
-            && ip + mem::size_of::<isize>() <= self.data_space().limit()
+            && ip <= self.data_space().limit() - mem::size_of::<isize>()
         {
             let w = unsafe { self.data_space().get_isize(ip) as usize };
             self.state().instruction_pointer += mem::size_of::<isize>();
@@ -816,7 +816,7 @@ pub trait Core: Sized {
     fn forth(&mut self) -> bool {
         let mut ip = self.state().instruction_pointer;
         if self.data_space().start() <= ip
-            && ip + mem::size_of::<isize>() <= self.data_space().limit()
+            && ip <= self.data_space().limit() - mem::size_of::<isize>()
         {
             let w = unsafe { self.data_space().get_isize(ip) as usize };
             self.state().instruction_pointer += mem::size_of::<isize>();
-- 
2.43.0


From ee41472eb882fe8e0ef1ef182cd7495eda859515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:22 +0000
Subject: [PATCH 17/32] fix: i and j with too little on the return stack are
 reported

---
 src/core.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index d3dfb69..0c177dc 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1079,6 +1079,10 @@ pub trait Core: Sized {
     }
 
     fn p_j(&mut self) {
+        if self.r_stack().len() < 5 {
+            self.abort_with(RETURN_STACK_UNDERFLOW);
+            return;
+        }
         let pos = self.r_stack().len() - 4;
         match self.r_stack().get(pos) {
             Some(jt) => match self.r_stack().get(pos - 1) {
@@ -1649,6 +1653,10 @@ pub trait Core: Sized {
     }
 
     fn p_i(&mut self) {
+        if self.r_stack().len() < 2 {
+            self.abort_with(RETURN_STACK_UNDERFLOW);
+            return;
+        }
         match self.r_stack().last() {
             Some(it) => {
                 let next = self.r_stack().len - 2;
-- 
2.43.0


From 7d52f98cc00841971d7c719bddc2abb739cb5da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:02 +0000
Subject: [PATCH 18/32] fix: file words reject addresses near the top of memory
 without overflow

---
 src/file_access.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/file_access.rs b/src/file_access.rs
index a36810f..04198a3 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -177,7 +177,10 @@ pub trait FileAccess: Core {
             }
         };
         let file = {
-            if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+            if self.data_space().start() <= caddr
+                && caddr <= self.data_space().limit()
+                && u <= self.data_space().limit() - caddr
+            {
                 let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                 match options.open(&path_name) {
                     Err(_) => Err(FILE_IO_EXCEPTION),
@@ -220,7 +223,10 @@ pub trait FileAccess: Core {
             self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
         } else {
             let result = {
-                if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+                if self.data_space().start() <= caddr
+                    && caddr <= self.data_space().limit()
+                    && u <= self.data_space().limit() - caddr
+                {
                     let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                     match fs::remove_file(path_name) {
                         Err(_) => FILE_IO_EXCEPTION.into(),
@@ -269,7 +275,10 @@ pub trait FileAccess: Core {
             }
         };
         let file = {
-            if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+            if self.data_space().start() <= caddr
+                && caddr <= self.data_space().limit()
+                && u <= self.data_space().limit() - caddr
+            {
                 let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                 match options.open(&path_name) {
                     Err(_) => Err(FILE_IO_EXCEPTION),
@@ -341,7 +350,10 @@ pub trait FileAccess: Core {
         } else {
             let mut file = self.files_mut()[fileid].take().unwrap();
             let result = {
-                if self.data_space().start() <= caddr && caddr + u1 <= self.data_space().limit() {
+                if self.data_space().start() <= caddr
+                    && caddr <= self.data_space().limit()
+                    && u1 <= self.data_space().limit() - caddr
+                {
                     let mut buf = unsafe { self.data_space().buffer_from_raw_parts_mut(caddr, u1) };
                     file.read(&mut buf).or(Err(FILE_IO_EXCEPTION.into()))
                 } else {
@@ -384,7 +396,8 @@ pub trait FileAccess: Core {
                 Some(mut f) => {
                     let result = {
                         if self.data_space().start() <= caddr
-                            && caddr + u <= self.data_space().limit()
+                            && caddr <= self.data_space().limit()
+                            && u <= self.data_space().limit() - caddr
                         {
                             let buf = unsafe {
                                 self.data_space().buffer_from_raw_parts(caddr as _, u as _)
-- 
2.43.0


From 7dda503f5b7830b3f1e341473275ec72ca67c675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:37 +0000
Subject: [PATCH 19/32] fix: delete-file leaves one result when the name is too
 long

---
 src/file_access.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_access.rs b/src/file_access.rs
index 04198a3..a7d862c 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -220,7 +220,7 @@ pub trait FileAccess: Core {
         let caddr = caddr as usize;
         let u = u as usize;
         if u > PATH_NAME_MAX_LEN {
-            self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
+            self.s_stack().push(INVALID_NUMERIC_ARGUMENT.into());
         } else {
             let result = {
                 if self.data_space().start() <= caddr
-- 
2.43.0


From 64ba6aef5713d0abed488ac36fd50ae3fff6856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:39 +0000
Subject: [PATCH 20/32] fix: write-file reports an invalid address as such

---
 src/file_access.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_access.rs b/src/file_access.rs
index a7d862c..5e40258 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -409,7 +409,7 @@ pub trait FileAccess: Core {
                     };
                     match result {
                         Ok(_) => self.s_stack().push(0),
-                        Err(_) => self.s_stack().push(FILE_IO_EXCEPTION.into()),
+                        Err(e) => self.s_stack().push(e.into()),
                     }
                     self.files_mut()[fileid] = Some(f);
                 }
-- 
2.43.0


From 24ae7a1bfb9c01284866b448b2a9ff03b3382359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:02 +0000
Subject: [PATCH 21/32] fix: _postpone checks the execution token

---
 src/core.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index 0c177dc..7bb8981 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1907,6 +1907,10 @@ pub trait Core: Sized {
         // --+------+---------+-----------+--
         // Because B comes after A, the xt of A is valid during execution of B.
         let xt = self.s_stack().pop() as usize;
+        if xt >= self.wordlist().len() {
+            self.abort_with(UNSUPPORTED_OPERATION);
+            return;
+        }
         let compilation_semantics = self.wordlist()[xt].compilation_semantics;
         compilation_semantics(self, xt);
     }
-- 
2.43.0


From e388221f66d30dc0e89e00832c357d3b8093c814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:39 +0000
Subject: [PATCH 22/32] fix: (xtime) checks the execution token and a start
 time in the future

---
 src/tools.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 528c57a..90b49b3 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -1,5 +1,6 @@
 //! Tools to inspect the rtforth system
 
+use exception::UNSUPPORTED_OPERATION;
 use memory::Memory;
 use output::Output;
 use std::fmt::Write;
@@ -151,7 +152,11 @@ pub trait Tools: Output {
     /// ```
     fn set_execution_times(&mut self) {
         let (t0, xt) = self.s_stack().pop2();
-        let t = (self.system_time_ns() / 1_000) as usize - t0 as usize;
+        if xt as usize >= self.wordlist().len() {
+            self.abort_with(UNSUPPORTED_OPERATION);
+            return;
+        }
+        let t = ((self.system_time_ns() / 1_000) as usize).saturating_sub(t0 as usize);
         let word = &mut self.wordlist_mut()[xt as usize];
         if word.min_execution_time != 0 {
             word.min_execution_time = word.min_execution_time.min(t);
-- 
2.43.0


From b1841c784154b81237cc594e4f445008f823b321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:53 +0000
Subject: [PATCH 23/32] fix: execution times of 0 microseconds are recorded,
 shown and cleared

---
 src/core.rs  |  3 ++-
 src/tools.rs | 15 +++++----------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 7bb8981..4f26344 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -35,6 +35,7 @@ pub struct Word<Target> {
     action: fn(&mut Target),
     pub(crate) compilation_semantics: fn(&mut Target, usize),
     // Minimum execution time in [ns]
+    // Greater than max_execution_time when not measured.
     pub(crate) min_execution_time: usize,
     // Maximum execution time in [ns]
     pub(crate) max_execution_time: usize,
@@ -58,7 +59,7 @@ impl<Target> Word<Target> {
             doer: 0,
             action: action,
             compilation_semantics: compilation_semantics,
-            min_execution_time: 0,
+            min_execution_time: usize::max_value(),
             max_execution_time: 0,
         }
     }
diff --git a/src/tools.rs b/src/tools.rs
index 90b49b3..2a6fa98 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -158,11 +158,7 @@ pub trait Tools: Output {
         }
         let t = ((self.system_time_ns() / 1_000) as usize).saturating_sub(t0 as usize);
         let word = &mut self.wordlist_mut()[xt as usize];
-        if word.min_execution_time != 0 {
-            word.min_execution_time = word.min_execution_time.min(t);
-        } else {
-            word.min_execution_time = t;
-        }
+        word.min_execution_time = word.min_execution_time.min(t);
         word.max_execution_time = word.max_execution_time.max(t);
     }
 
@@ -171,7 +167,8 @@ pub trait Tools: Output {
         if let Some(mut buf) = self.output_buffer().take() {
             let mut counter = 0;
             for w in (1..self.wordlist().len()).rev() {
-                if self.wordlist()[w].min_execution_time > 0 {
+                let word = &self.wordlist()[w];
+                if word.min_execution_time <= word.max_execution_time {
                     counter += 1;
                     if 1 != counter {
                         write!(buf, "|").unwrap();
@@ -190,10 +187,8 @@ pub trait Tools: Output {
     /// Clear measured execution times. `0xtime( -- )`
     fn clear_xtime(&mut self) {
         for w in (1..self.wordlist().len()).rev() {
-            if self.wordlist()[w].min_execution_time > 0 {
-                self.wordlist_mut()[w].min_execution_time = 0;
-                self.wordlist_mut()[w].max_execution_time = 0;
-            }
+            self.wordlist_mut()[w].min_execution_time = usize::max_value();
+            self.wordlist_mut()[w].max_execution_time = 0;
         }
     }
 
-- 
2.43.0


From 30597aa5c99795cabedb05036ca38941687864fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:22 +0000
Subject: [PATCH 24/32] fix: type rejects addresses outside the data space

---
 src/output.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index c5d638c..770a72a 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1,7 +1,7 @@
 //! Words output to console
 
 use core::Core;
-use exception::{STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
+use exception::{INVALID_MEMORY_ADDRESS, STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
 use memory::Memory;
 use std::fmt::Write;
 
@@ -54,6 +54,16 @@ pub trait Output: Core {
             self.abort_with(STACK_UNDERFLOW);
             return;
         }
+        if len <= 0 {
+            return;
+        }
+        if (addr as usize) < self.data_space().start()
+            || addr as usize > self.data_space().limit()
+            || len as usize > self.data_space().limit() - addr as usize
+        {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
         match self.output_buffer().take() {
             Some(mut buffer) => {
                 {
-- 
2.43.0


From d5f15d174c7d2bdc6ac185f9653ee163f4bb32e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:22 +0000
Subject: [PATCH 25/32] fix: compiling with the data space full is an
 exception, not a panic

---
 src/core.rs   | 33 ++++++++++++++++++++++++++++++++-
 src/float.rs  |  6 ++++--
 src/output.rs | 23 ++++++++++++++++-------
 3 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 4f26344..3a12e4b 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -829,8 +829,21 @@ pub trait Core: Sized {
         }
     }
 
+    /// Is there room for `n` more bytes in data space? Abort with
+    /// `DICTIONARY_OVERFLOW` if not.
+    fn has_room(&mut self, n: usize) -> bool {
+        if self.data_space().limit() - self.data_space().here() < n {
+            self.abort_with(DICTIONARY_OVERFLOW);
+            false
+        } else {
+            true
+        }
+    }
+
     fn compile_word(&mut self, word_index: usize) {
-        self.data_space().compile_usize(word_index as usize);
+        if self.has_room(mem::size_of::<usize>()) {
+            self.data_space().compile_usize(word_index as usize);
+        }
     }
 
     fn compile_nest(&mut self, word_index: usize) {
@@ -868,6 +881,9 @@ pub trait Core: Sized {
 
     /// Compile integer `i`.
     fn compile_integer(&mut self, i: isize) {
+        if !self.has_room(2 * mem::size_of::<isize>()) {
+            return;
+        }
         let idx = self.references().idx_lit;
         self.compile_word(idx);
         self.data_space().compile_isize(i as isize);
@@ -884,6 +900,9 @@ pub trait Core: Sized {
 
     /// Compile float 'f'.
     fn compile_float(&mut self, f: f64) {
+        if !self.has_room(4 * mem::size_of::<f64>()) {
+            return;
+        }
         let idx_flit = self.references().idx_flit;
         self.compile_word(idx_flit);
         self.data_space().align_f64();
@@ -1917,6 +1936,10 @@ pub trait Core: Sized {
     }
 
     fn compile_token(&mut self) {
+        // No token but strings compiles more than 16 cells.
+        if !self.has_room(16 * mem::size_of::<isize>()) {
+            return;
+        }
         let last_token = self.last_token().take().expect("token");
         match self.find(&last_token) {
             Some(found_index) => {
@@ -2317,6 +2340,11 @@ pub trait Core: Sized {
         if last_token.is_empty() {
             self.set_last_token(last_token);
             self.abort_with(UNEXPECTED_END_OF_FILE);
+        } else if !self
+            .has_room(last_token.len() + (BUCKET_SIZE + 8) * mem::size_of::<usize>())
+        {
+            // No room for the name and the body the defining words compile.
+            self.set_last_token(last_token);
         } else {
             let nfa = self.data_space().compile_str(&last_token);
             self.data_space().align();
@@ -2393,6 +2421,9 @@ pub trait Core: Sized {
         let x = self.wordlist().last;
         self.wordlist_mut().temp_buckets = self.wordlist().buckets;
         self.define(Core::unmark, Core::compile_unmark);
+        if self.last_error().is_some() {
+            return;
+        }
         self.data_space().compile_usize(x);
         for i in 0..BUCKET_SIZE {
             let x = self.wordlist().temp_buckets[i];
diff --git a/src/float.rs b/src/float.rs
index 1455104..a656559 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -65,8 +65,10 @@ pub trait Float: Core {
     fn fconstant(&mut self) {
         let v = self.f_stack().pop();
         self.define(Float::p_fconst, Core::compile_fconst);
-        self.data_space().align_f64();
-        self.data_space().compile_f64(v);
+        if self.last_error().is_none() {
+            self.data_space().align_f64();
+            self.data_space().compile_f64(v);
+        }
     }
 
     /// Run-time: ( a-addr1 -- a-addr2 )
diff --git a/src/output.rs b/src/output.rs
index 770a72a..b8272e8 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1,9 +1,10 @@
 //! Words output to console
 
 use core::Core;
-use exception::{INVALID_MEMORY_ADDRESS, STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
+use exception::{DICTIONARY_OVERFLOW, INVALID_MEMORY_ADDRESS, STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
 use memory::Memory;
 use std::fmt::Write;
+use std::mem;
 
 /// Types that can output to console.
 pub trait Output: Core {
@@ -90,6 +91,7 @@ pub trait Output: Core {
     /// Return c-addr and u describing a string consisting of the characters ccc. A program
     /// shall not alter the returned string.
     fn s_quote(&mut self) {
+        let full;
         let buffer = self.input_buffer().take();
         {
             let input_buffer = buffer.as_ref().map_or("", |s| s.as_str());
@@ -102,16 +104,23 @@ pub trait Output: Core {
                 None => source,
             };
             let cnt = s.len();
-            let idx = self.references().idx_s_quote;
-            let compilation_semantics = self.wordlist()[idx].compilation_semantics;
-            compilation_semantics(self, idx);
-            self.data_space().compile_str(s);
-            self.data_space().align();
-            self.state().source_index = (start + cnt + 1).min(input_buffer.len());
+            full = self.data_space().limit() - self.data_space().here()
+                < cnt + 4 * mem::size_of::<usize>();
+            if !full {
+                let idx = self.references().idx_s_quote;
+                let compilation_semantics = self.wordlist()[idx].compilation_semantics;
+                compilation_semantics(self, idx);
+                self.data_space().compile_str(s);
+                self.data_space().align();
+                self.state().source_index = (start + cnt + 1).min(input_buffer.len());
+            }
         }
         if let Some(input_buffer) = buffer {
             self.set_input_buffer(input_buffer);
         }
+        if full {
+            self.abort_with(DICTIONARY_OVERFLOW);
+        }
     }
 
     /// Compilation: ( "ccc<quote>" -- )
-- 
2.43.0


From c34217ace4ef486a823e62075cabe9e754d91288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:23 +0000
Subject: [PATCH 26/32] fix: !token rejects addresses without room for the
 token

---
 src/core.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 3a12e4b..5419fd8 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2055,7 +2055,14 @@ pub trait Core: Sized {
     /// Store token in counted string at `c-addr`.`
     fn store_token(&mut self) {
         let c_addr = self.s_stack().pop() as usize;
-        if self.data_space().start() <= c_addr {
+        let len = match self.last_token().as_ref() {
+            Some(t) => t.len().min(255),
+            None => 0,
+        };
+        if self.data_space().start() <= c_addr
+            && c_addr <= self.data_space().limit()
+            && len + mem::size_of::<usize>() <= self.data_space().limit() - c_addr
+        {
             match self.last_token().take() {
                 Some(mut t) => {
                     self.data_space().put_cstr(&t, c_addr);
@@ -2063,11 +2070,7 @@ pub trait Core: Sized {
                     self.set_last_token(t);
                 }
                 None => unsafe {
-                    if c_addr < self.data_space().limit() {
-                        self.data_space().put_u8(0, c_addr);
-                    } else {
-                        panic!("Error: store_token while space is full.");
-                    }
+                    self.data_space().put_u8(0, c_addr);
                 },
             }
         } else {
-- 
2.43.0


From 7322c53e363e787a3364ce98afc2eb698ca84c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 27/32] fix: open-source rejects a path outside the data space

---
 src/loader.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/loader.rs b/src/loader.rs
index e23754e..672556f 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -1,7 +1,9 @@
 //! Source input
 
 use core::Core;
-use exception::{Exception, FILE_IO_EXCEPTION, INVALID_NUMERIC_ARGUMENT};
+use exception::{
+    Exception, FILE_IO_EXCEPTION, INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT,
+};
 use memory::Memory;
 use output::Output;
 use std::fs::File;
@@ -38,6 +40,13 @@ pub trait HasLoader: Core + Output {
     /// or opened read-write.
     fn open_source(&mut self) {
         let (caddr, u, id) = self.s_stack().pop3();
+        if (caddr as usize) < self.data_space().start()
+            || caddr as usize > self.data_space().limit()
+            || u as usize > self.data_space().limit() - caddr as usize
+        {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
         if id > 0 && id - 1 < self.files().len() as isize {
             match self.files_mut()[id as usize - 1].take() {
                 Some(file) => {
-- 
2.43.0


From 1bfb52595bf5bfa958e8e8e4ff39d295ed05be85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:02 +0000
Subject: [PATCH 28/32] fix: leave checks the address it finds on the return
 stack

---
 src/core.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 5419fd8..1abd01c 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1082,8 +1082,15 @@ pub trait Core: Sized {
             self.abort_with(RETURN_STACK_UNDERFLOW);
             return;
         }
-        self.state().instruction_pointer =
-            unsafe { self.data_space().get_isize(third as usize) as usize };
+        let third = third as usize;
+        if third < self.data_space().start()
+            || third > self.data_space().limit() - mem::size_of::<isize>()
+        {
+            // Not the loop parameters `_do` left there.
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
+        self.state().instruction_pointer = unsafe { self.data_space().get_isize(third) as usize };
     }
 
     fn compile_leave(&mut self, word_idx: usize) {
-- 
2.43.0


From 4d1f1e6a78a0d5712cbc3dbba9ce9cd1964ad92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:16 +0000
Subject: [PATCH 29/32] fix: .source-line shows no line of a closed source

---
 src/loader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/loader.rs b/src/loader.rs
index 672556f..8cdac7f 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -58,6 +58,7 @@ pub trait HasLoader: Core + Output {
                     match position {
                         Some(sid) => {
                             self.sources_mut()[sid] = Some(Source { reader, path });
+                            self.lines_mut()[sid] = Some(String::with_capacity(128));
                             self.s_stack().push(sid as isize + 1);
                         }
                         None => {
@@ -120,7 +121,10 @@ pub trait HasLoader: Core + Output {
     /// ( source-id -- )
     fn dot_source_line(&mut self) {
         let id = self.s_stack().pop();
-        if id > 0 && id - 1 < self.lines().len() as isize {
+        if id > 0
+            && id - 1 < self.sources().len() as isize
+            && self.sources()[id as usize - 1].is_some()
+        {
             let line = self.lines_mut()[id as usize - 1].take();
             match line {
                 Some(s) => {
-- 
2.43.0


From 4977448c2c746950fe87b99adf66a0a4fdefe680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:17 +0000
Subject: [PATCH 30/32] fix: the line number of the including file survives an
 include

---
 core.fth | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core.fth b/core.fth
index 7bf20b7..fb22e6a 100644
--- a/core.fth
+++ b/core.fth
@@ -101,19 +101,22 @@ defer save-input   ' _save-input  ' save-input  defer!
 defer restore-input   ' _restore-input  ' restore-input  defer!
 
 \ Stack to save & restore source
-\ content: | capacity | count=N | source-idx1 | source-id1 | ... | source_idxN | source-idN |
+\ content: | capacity | count=N | line1 | source-idx1 | source-id1 | ... | lineN | source_idxN | source-idN |
 \ NOTE: multitasking is not considered here.
-create src-stack 16 , 0 , 16 2* cells allot
+variable load-line#
+create src-stack 16 , 0 , 16 3 * cells allot
 : save-source
     source-id source-idx
     src-stack 2@ over > if
       ( src-id src-idx count ) 1+ dup src-stack cell+ !
-      ( src-id src-idx count+1 ) 2* cells src-stack +  2!
+      ( src-id src-idx count+1 ) 3 * 1- cells src-stack +
+      load-line# @ over !  cell+ 2!
     else abort then ;
 : restore-source
     src-stack 2@ drop  dup 0 > if
       ( count ) dup 1- src-stack cell+ !
-      ( count ) 2* cells src-stack + 2@
+      ( count ) 3 * 1- cells src-stack +
+      dup @ load-line# !  cell+ 2@
       source-idx!  source-id!
     else abort then ;
 : evaluate-input
@@ -124,7 +127,6 @@ create src-stack 16 , 0 , 16 2* cells allot
       ?stacks else interpret-token ?stacks then
     repeat ;
 \ Multitasking is not considered here.
-variable load-line#
 : load-source-file ( -- )
     begin
       source-id load-line
-- 
2.43.0


From 5d5622286761a380762f614c7622e3f4834c54ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:19 +0000
Subject: [PATCH 31/32] fix: include works again after errors in included files

---
 core.fth | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core.fth b/core.fth
index fb22e6a..bc7f7b7 100644
--- a/core.fth
+++ b/core.fth
@@ -138,6 +138,8 @@ create src-stack 16 , 0 , 16 3 * cells allot
     repeat  drop ;
 : included ( c-addr u -- )
     2dup  r/o open-file 0= if
+        \ Sources saved before an error are obsolete.
+        source-id 0= if 0 src-stack cell+ ! then
         save-source
         ( c-addr u file-id ) open-source source-id!
         postpone [
-- 
2.43.0


From 27ad947b0539c2078dcc7aecdf08feb366a48879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:20 +0000
Subject: [PATCH 32/32] fix: execute refuses run-time routines outside compiled
 code

---
 src/core.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 1abd01c..53c7e11 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -3004,7 +3004,20 @@ pub trait Core: Sized {
     /// Other stack effects are due to the word `EXECUTE`d.
     fn execute(&mut self) {
         let t = self.s_stack().pop();
-        self.execute_word(t as usize);
+        if self.lacks_code(t as usize) {
+            self.abort_with(INTERPRETING_A_COMPILE_ONLY_WORD);
+        } else {
+            self.execute_word(t as usize);
+        }
+    }
+
+    /// Is word `i` a run-time routine such as `lit` or `branch` without compiled code to read its
+    /// operands from?
+    fn lacks_code(&mut self, i: usize) -> bool {
+        self.state().instruction_pointer == 0
+            && i < self.wordlist().len()
+            && self.wordlist()[i].is_compile_only()
+            && !self.wordlist()[i].is_immediate()
     }
 
     /// Compilation: ( "<spaces>name" -- )
@@ -3282,7 +3295,9 @@ pub trait Core: Sized {
         self.state().aborted_word_pointer = self.state().word_pointer;
         // Handler `h` may be invalid, or abort: it is not to handle itself.
         self.set_handler(0);
-        self.execute_word(h);
+        if !self.lacks_code(h) {
+            self.execute_word(h);
+        }
         self.set_handler(h);
     }
 
-- 
2.43.0

