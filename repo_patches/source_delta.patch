From 1bcdc9801db25a470e277c2553c5fdbcbefe7c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:01 +0000
Subject: [PATCH 01/24] fix: reset the JSON variant state between a map key and
 its value

A map key that is an enum or tagged value left the formatter believing its
value was an enum variant, producing invalid JSON.
---
 json/src/to_fmt.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 464e7bf..6d038aa 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -254,6 +254,9 @@ where
     }
 
     fn map_value_begin(&mut self) -> sval::Result {
+        // The key may itself have been an enum or tagged value
+        self.is_internally_tagged = false;
+
         Ok(())
     }
 
-- 
2.43.0


From f60acc033c4337f4c5b5ea8141f4bb950c923fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:01 +0000
Subject: [PATCH 02/24] fix: balance JSON objects for nested enums without
 labels

A nested enum with neither a label nor an index doesn't open an object of its
own, so its end mustn't close one.
---
 json/src/to_fmt.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 6d038aa..46b7fde 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -329,10 +329,10 @@ where
         }
 
         if self.is_internally_tagged {
-            self.internally_tagged_map_end()
-        } else {
-            self.internally_tagged_end(label, index)
+            _try_no_conv!(self.internally_tagged_map_end());
         }
+
+        self.internally_tagged_end(label, index)
     }
 
     fn tagged_begin(
-- 
2.43.0


From 1c1f07f77315f3acb9b3e60d608ed4bbf39d535d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:01 +0000
Subject: [PATCH 03/24] fix: write zero with an exponent as a valid JSON number

---
 json/src/to_fmt.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 46b7fde..f6485a8 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -621,6 +621,17 @@ impl NumberTextHandler {
                         self.at_start = false;
                         range.end += 1;
                     }
+                    // If we encounter an exponent after nothing but zeroes we need to write a `0`
+                    b'e' | b'E' if self.at_start => {
+                        if self.sign_negative {
+                            _try_no_conv!(out.write_char('-'));
+                        }
+
+                        _try_no_conv!(out.write_char('0'));
+
+                        self.at_start = false;
+                        range.end += 1;
+                    }
                     // If we encounter a sign then stash it until we know the number is finite
                     // A value like `-inf` should still write `null`, not `-null`
                     b'-' if self.at_start => {
-- 
2.43.0


From f9450e9d17fbdb6164b51f39203af266b2015665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:01 +0000
Subject: [PATCH 04/24] fix: fail instead of truncating when an I/O writer
 accepts no bytes

---
 json/src/to_io.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json/src/to_io.rs b/json/src/to_io.rs
index 96f805b..9f480a3 100644
--- a/json/src/to_io.rs
+++ b/json/src/to_io.rs
@@ -20,7 +20,10 @@ pub fn stream_to_io_write(io: impl Write, v: impl sval::Value) -> Result<(), Err
 
             while buf.len() > 0 {
                 match self.io.write(buf) {
-                    Ok(0) => break,
+                    Ok(0) => {
+                        self.err = Some(io::ErrorKind::WriteZero.into());
+                        return Err(fmt::Error);
+                    }
                     Ok(n) => {
                         buf = &buf[n..];
                     }
-- 
2.43.0


From 4a4776a3923f0b99425ad97858d3b6eb286af810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:52 +0000
Subject: [PATCH 05/24] fix: write the label of a number tagged as an enum
 variant in JSON

The number tag switched off quoting before the variant label was written, so
the label was rejected as an invalid key.
---
 json/src/to_fmt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index f6485a8..2f4be85 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -341,6 +341,9 @@ where
         label: Option<&sval::Label>,
         index: Option<&sval::Index>,
     ) -> sval::Result {
+        // Any label belongs to the enclosing enum, so write it before applying the tag
+        _try_no_conv!(self.internally_tagged_begin(label, index));
+
         match tag {
             Some(&tags::JSON_TEXT) => {
                 self.text_handler = Some(TextHandler::native());
@@ -363,7 +366,6 @@ where
             _ => (),
         }
 
-        _try_no_conv!(self.internally_tagged_begin(label, index));
         self.is_current_depth_empty = true;
 
         Ok(())
-- 
2.43.0


From 4b0f4c983e076db7385958997da7e7d901f3673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:58 +0000
Subject: [PATCH 06/24] fix: don't repeat the enum name after a variant with an
 empty container

When an enum variant was (or ended with) an empty map, sequence, record or
tuple, the debug writer took the enum itself to be empty and wrote its tag
again after the variant.
---
 fmt/src/writer.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fmt/src/writer.rs b/fmt/src/writer.rs
index e8ec851..23a1412 100644
--- a/fmt/src/writer.rs
+++ b/fmt/src/writer.rs
@@ -304,6 +304,9 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_map_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        // The container itself is content of whatever surrounds it
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -335,6 +338,9 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_seq_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        // The container itself is content of whatever surrounds it
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -471,6 +477,9 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_record_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        // The container itself is content of whatever surrounds it
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -521,6 +530,9 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_tuple_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        // The container itself is content of whatever surrounds it
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 }
-- 
2.43.0


From f337300b88f861e06e5f47312168cc87b1825ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:27 +0000
Subject: [PATCH 07/24] fix: keep the tag hint when cloning or converting a
 label to owned

Label::clone on an owned label, Label::to_owned and Label::try_to_owned
dropped the tag attached with Label::with_tag, so buffered labels lost it.
---
 src/data.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 96d28f5..ba82732 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -162,9 +162,12 @@ impl<'computed> Label<'computed> {
         }
         #[cfg(not(feature = "alloc"))]
         {
-            self.as_static_str()
+            let mut label = self
+                .as_static_str()
                 .map(Label::new)
-                .ok_or_else(crate::Error::new)
+                .ok_or_else(crate::Error::new)?;
+            label.tag = self.tag.clone();
+            Ok(label)
         }
     }
 }
@@ -570,7 +573,9 @@ mod alloc_support {
         fn clone(&self) -> Self {
             if let Some(owned) = self.backing_field_owned {
                 // SAFETY: `owned` lives as long as `Label`
-                Label::new_owned(unsafe { &*owned }.to_owned())
+                let mut label = Label::new_owned(unsafe { &*owned }.to_owned());
+                label.tag = self.tag.clone();
+                label
             } else {
                 Label {
                     value_computed: self.value_computed,
@@ -590,11 +595,13 @@ mod alloc_support {
         This method will allocate if the label isn't based on a static string.
         */
         pub fn to_owned(&self) -> Label<'static> {
-            if let Some(backing_field_static) = self.backing_field_static {
+            let mut label = if let Some(backing_field_static) = self.backing_field_static {
                 Label::new(backing_field_static)
             } else {
                 Label::new_owned(self.as_str().into())
-            }
+            };
+            label.tag = self.tag.clone();
+            label
         }
     }
 
-- 
2.43.0


From 439d7d81181111b6dc1d35af78e2c6bc10067fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:27 +0000
Subject: [PATCH 08/24] fix: report values that fail by themselves when
 collecting text or binary

TextBuf::collect and BinaryBuf::collect panicked when the value being
collected returned an error of its own.
---
 buffer/src/fragments.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/buffer/src/fragments.rs b/buffer/src/fragments.rs
index d75d51c..8aeb934 100644
--- a/buffer/src/fragments.rs
+++ b/buffer/src/fragments.rs
@@ -40,11 +40,12 @@ impl<'sval> TextBuf<'sval> {
             err: None,
         };
 
-        value
-            .stream(&mut collector)
-            .map_err(|_| collector.err.unwrap())?;
-
-        Ok(collector.buf)
+        match value.stream(&mut collector) {
+            Ok(()) => Ok(collector.buf),
+            Err(_) => Err(collector
+                .err
+                .unwrap_or_else(|| Error::invalid_value("the value itself failed to stream"))),
+        }
     }
 
     /**
@@ -297,11 +298,12 @@ impl<'sval> BinaryBuf<'sval> {
             err: None,
         };
 
-        value
-            .stream(&mut collector)
-            .map_err(|_| collector.err.unwrap())?;
-
-        Ok(collector.buf)
+        match value.stream(&mut collector) {
+            Ok(()) => Ok(collector.buf),
+            Err(_) => Err(collector
+                .err
+                .unwrap_or_else(|| Error::invalid_value("the value itself failed to stream"))),
+        }
     }
 
     /**
-- 
2.43.0


From 3b4cdf8409b0a8bb03d9ca5f79ac61481dfc9528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:26 +0000
Subject: [PATCH 09/24] fix: allow tag hints anywhere in a buffered value

Tag hints may be given at any point in a stream, but a hint between the
fragments of text or binary made ValueBuf fail, and a buffer that held
nothing but a hint reported itself complete.
---
 buffer/src/value.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/buffer/src/value.rs b/buffer/src/value.rs
index 8534aa0..44b133c 100644
--- a/buffer/src/value.rs
+++ b/buffer/src/value.rs
@@ -165,7 +165,13 @@ impl<'sval> ValueBuf<'sval> {
     Whether or not the contents of the value buffer are complete.
     */
     pub fn is_complete(&self) -> bool {
-        self.stack.len() == 0 && self.parts.len() > 0 && !self.is_in_text_or_binary
+        self.stack.len() == 0
+            && !self.is_in_text_or_binary
+            // Hints on their own aren't a value
+            && self
+                .parts
+                .iter()
+                .any(|part| !matches!(part.kind, ValueKind::TagHint { .. }))
     }
 
     /**
@@ -640,9 +646,20 @@ impl<'sval> sval::Stream<'sval> for ValueBuf<'sval> {
         tag: &sval::Tag,
     ) -> sval::Result {
         self.try_catch(|buf| {
-            buf.push_kind(ValueKind::TagHint {
-                tag: tag.clone(),
-            })
+            // Fragments are pushed onto the current part, so hints given within
+            // text or binary are kept in front of it
+            let current = if buf.is_in_text_or_binary {
+                buf.parts.pop()
+            } else {
+                None
+            };
+
+            buf.push_kind(ValueKind::TagHint { tag: tag.clone() })?;
+
+            match current {
+                Some(current) => buf.parts.push(current),
+                None => Ok(()),
+            }
         })
     }
 
-- 
2.43.0


From 6d9fe0a8fce773762fb58e1ea0eb7b1357a0a467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:23 +0000
Subject: [PATCH 10/24] fix: convert values that stream a signed 64bit integer
 or narrower

The default to_i128 rejected i64, which is what every narrower signed
integer falls back to, so to_i8 through to_i128 returned None for any
tagged or derived value around a signed integer.
---
 src/value.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 928a263..2b46a5d 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -621,8 +621,9 @@ pub mod default_value {
                 crate::error()
             }
 
-            fn i64(&mut self, _: i64) -> Result {
-                crate::error()
+            fn i64(&mut self, value: i64) -> Result {
+                self.0 = Some(value as i128);
+                Ok(())
             }
 
             fn f64(&mut self, _: f64) -> Result {
-- 
2.43.0


From ad7c6c97808e9533a73ae27e19ed9c5bdef7f5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:39 +0000
Subject: [PATCH 11/24] fix: report values that fail after completing a nested
 stream

---
 nested/src/flat.rs | 11 ++++++++++-
 nested/src/lib.rs  | 16 ++++++++--------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index b94d386..ec4f44c 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -165,7 +165,16 @@ impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
         }
     }
 
-    pub fn finish(&mut self) -> Result<S::Ok> {
+    pub fn finish_with(&mut self, r: sval::Result) -> Result<S::Ok> {
+        let ok = self.finish()?;
+
+        // The stream may be complete even if the value then fails by itself
+        r.map_err(|_| Error::invalid_value("the value itself failed to stream"))?;
+
+        Ok(ok)
+    }
+
+    fn finish(&mut self) -> Result<S::Ok> {
         if let State::Done(ref mut r) = self.state {
             r.take()
                 .unwrap_or_else(|| Err(Error::invalid_value("incomplete stream")))
diff --git a/nested/src/lib.rs b/nested/src/lib.rs
index fecf900..1dd9105 100644
--- a/nested/src/lib.rs
+++ b/nested/src/lib.rs
@@ -937,8 +937,8 @@ pub mod default_stream {
         value: V,
     ) -> Result<S::Ok> {
         let mut stream = FlatStream::new(stream);
-        let _ = sval_ref::stream_ref(&mut stream, value);
-        stream.finish()
+        let r = sval_ref::stream_ref(&mut stream, value);
+        stream.finish_with(r)
     }
 
     /**
@@ -959,8 +959,8 @@ pub mod default_stream {
         value: V,
     ) -> Result<S::Ok> {
         let mut stream = FlatStream::new(stream);
-        let _ = sval::default_stream::value_computed(&mut stream, &value);
-        stream.finish()
+        let r = sval::default_stream::value_computed(&mut stream, &value);
+        stream.finish_with(r)
     }
 
     /**
@@ -992,8 +992,8 @@ pub mod default_stream {
             stream.i64(value)
         } else {
             let mut stream = FlatStream::new(stream);
-            let _ = sval::stream_number(&mut stream, value);
-            stream.finish()
+            let r = sval::stream_number(&mut stream, value);
+            stream.finish_with(r)
         }
     }
 
@@ -1033,8 +1033,8 @@ pub mod default_stream {
             stream.i64(value)
         } else {
             let mut stream = FlatStream::new(stream);
-            let _ = sval::stream_number(&mut stream, value);
-            stream.finish()
+            let r = sval::stream_number(&mut stream, value);
+            stream.finish_with(r)
         }
     }
 
-- 
2.43.0


From 3c9ca91f6eb79266205b22198e435d6024b7638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:39 +0000
Subject: [PATCH 12/24] fix: don't recurse forever on empty enums in nested
 streams

---
 nested/src/flat_enum.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nested/src/flat_enum.rs b/nested/src/flat_enum.rs
index 7363aa2..856dd26 100644
--- a/nested/src/flat_enum.rs
+++ b/nested/src/flat_enum.rs
@@ -40,7 +40,11 @@ impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S> {
     }
 
     pub fn end(self) -> Result<S::Ok> {
-        self.value_or_recurse(|stream, _| stream.end(), |stream, _| stream.end(), ())
+        self.value_or_recurse(
+            |stream, _| stream.stream.empty(),
+            |stream, _| stream.end(),
+            (),
+        )
     }
 
     fn value_or_recurse<I>(
-- 
2.43.0


From 750f70384f26d6239b51e35be7c23612bcc5fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:39 +0000
Subject: [PATCH 13/24] fix: reject tuple and record variants of nested enums
 with an error

---
 nested/src/flat_enum.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/nested/src/flat_enum.rs b/nested/src/flat_enum.rs
index 856dd26..2c222f7 100644
--- a/nested/src/flat_enum.rs
+++ b/nested/src/flat_enum.rs
@@ -47,6 +47,16 @@ impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S> {
         )
     }
 
+    fn ensure_not_nested(&self) -> Result {
+        if self.queue.is_empty() {
+            Ok(())
+        } else {
+            Err(Error::invalid_value(
+                "nested enum variants can only be tags or tagged values",
+            ))
+        }
+    }
+
     fn value_or_recurse<I>(
         mut self,
         value: impl FnOnce(Self, I) -> Result<S::Ok>,
@@ -190,7 +200,7 @@ impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S> {
         index: Option<sval::Index>,
         num_entries: Option<usize>,
     ) -> Result<Self::Tuple> {
-        assert!(self.queue.is_empty());
+        self.ensure_not_nested()?;
 
         self.stream.tuple_begin(tag, label, index, num_entries)
     }
@@ -202,7 +212,7 @@ impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S> {
         index: Option<sval::Index>,
         num_entries: Option<usize>,
     ) -> Result<Self::Record> {
-        assert!(self.queue.is_empty());
+        self.ensure_not_nested()?;
 
         self.stream.record_begin(tag, label, index, num_entries)
     }
@@ -213,7 +223,7 @@ impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S> {
         _: Option<sval::Label>,
         _: Option<sval::Index>,
     ) -> Result<Self::Enum> {
-        unreachable!()
+        Err(Error::invalid_value("enums are unsupported"))
     }
 }
 
-- 
2.43.0


From c3f370b7796d51dcc5042789e7c65cc4a54d5f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:39 +0000
Subject: [PATCH 14/24] fix: keep element boundaries of sequences buffered by
 nested streams

---
 nested/src/flat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index ec4f44c..e6142e9 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -259,11 +259,11 @@ impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
     }
 
     fn seq_value_begin(&mut self) -> sval::Result {
-        Ok(())
+        self.buffer_or_with(|buf| buf.seq_value_begin(), |_| Ok(()))
     }
 
     fn seq_value_end(&mut self) -> sval::Result {
-        Ok(())
+        self.buffer_or_with(|buf| buf.seq_value_end(), |_| Ok(()))
     }
 
     fn seq_end(&mut self) -> sval::Result {
-- 
2.43.0


From 826e7ca37c571bf55d0390bfc2a154d781007ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:30 +0000
Subject: [PATCH 15/24] fix: serialize tagged values without a label, like
 arrays, through serde

---
 serde/src/to_serialize.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serde/src/to_serialize.rs b/serde/src/to_serialize.rs
index e0f54d6..74fdc7c 100644
--- a/serde/src/to_serialize.rs
+++ b/serde/src/to_serialize.rs
@@ -200,6 +200,8 @@ impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S> {
             Some(sval::tags::RUST_OPTION_SOME) => {
                 Ok(self.serializer.serialize_some(&ToSerialize::new(value)))
             }
+            // `serde` has no unnamed newtypes, so serialize the value by itself
+            _ if label.is_none() => Ok(ToSerialize::new(value).serialize(self.serializer)),
             _ => {
                 let name = label
                     .and_then(|label| label.as_static_str())
-- 
2.43.0


From 6f8cd46adf7afadb70093c88767cac3c5997e47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:30 +0000
Subject: [PATCH 16/24] fix: keep field names of records without a label when
 serializing through serde

---
 serde/src/to_serialize.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/serde/src/to_serialize.rs b/serde/src/to_serialize.rs
index 74fdc7c..854d58b 100644
--- a/serde/src/to_serialize.rs
+++ b/serde/src/to_serialize.rs
@@ -100,7 +100,7 @@ impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S> {
 
     type Tuple = SerializeTuple<S::SerializeTupleStruct, S::SerializeTuple, S::Error>;
 
-    type Record = SerializeRecord<S::SerializeStruct, S::SerializeTuple, S::Error>;
+    type Record = SerializeRecord<S::SerializeStruct, S::SerializeMap, S::Error>;
 
     type Enum = SerializeEnum<S>;
 
@@ -286,7 +286,7 @@ impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S> {
             None => Ok(SerializeRecord {
                 serializer: self
                     .serializer
-                    .serialize_tuple(len)
+                    .serialize_map(Some(len))
                     .map(|serializer| MaybeNamed::Unnamed { serializer }),
             }),
         }
@@ -381,7 +381,7 @@ impl<
         TOk,
         TError,
         TNamed: serde::ser::SerializeStruct<Ok = TOk, Error = TError>,
-        TUnnamed: serde::ser::SerializeTuple<Ok = TOk, Error = TError>,
+        TUnnamed: serde::ser::SerializeMap<Ok = TOk, Error = TError>,
     > StreamRecord<'sval> for SerializeRecord<TNamed, TUnnamed, TError>
 {
     type Ok = Result<TOk, TError>;
@@ -406,7 +406,7 @@ impl<
                 }
             }
             Ok(MaybeNamed::Unnamed { ref mut serializer }) => {
-                match serializer.serialize_element(&ToSerialize::new(value)) {
+                match serializer.serialize_entry(label.as_str(), &ToSerialize::new(value)) {
                     Ok(()) => return Ok(()),
                     Err(err) => {
                         self.serializer = Err(err);
-- 
2.43.0


From 328c2c85385b9cca9aabe94d4093af8f4b567df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:56 +0000
Subject: [PATCH 17/24] fix: leave the flattened enum before ending the values
 that wrap it

---
 flatten/src/flattener.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatten/src/flattener.rs b/flatten/src/flattener.rs
index a3c412f..b6048e2 100644
--- a/flatten/src/flattener.rs
+++ b/flatten/src/flattener.rs
@@ -419,7 +419,10 @@ impl<'sval, S: Flatten<'sval>> Stream<'sval> for Flattener<'sval, S> {
         index: Option<&Index>,
     ) -> sval::Result {
         self.value_at_root(
-            |_, _| Ok(()),
+            |_, state| {
+                state.in_flattening_enum = false;
+                Ok(())
+            },
             |buf| buf.enum_end(tag, label, index),
             |stream| stream.enum_end(tag, label, index),
         )
-- 
2.43.0


From 3cb05bdbd0e15a6fc26750694613b4264fce26d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:47 +0000
Subject: [PATCH 18/24] fix: end the keys of maps nested in flattened values

---
 flatten/src/flattener.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatten/src/flattener.rs b/flatten/src/flattener.rs
index b6048e2..97dc89d 100644
--- a/flatten/src/flattener.rs
+++ b/flatten/src/flattener.rs
@@ -302,7 +302,7 @@ impl<'sval, S: Flatten<'sval>> Stream<'sval> for Flattener<'sval, S> {
                 state.in_flattening_map_key = false;
                 Ok(())
             },
-            |stream| stream.map_key_begin(),
+            |stream| stream.map_key_end(),
         )
     }
 
-- 
2.43.0


From ebb111f48c61710ce0163d4380a1346b76fff9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:20 +0000
Subject: [PATCH 19/24] fix: concatenate numbers in compound keys flattened
 onto records

---
 flatten/src/label.rs | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/flatten/src/label.rs b/flatten/src/label.rs
index d15da13..dd5813d 100644
--- a/flatten/src/label.rs
+++ b/flatten/src/label.rs
@@ -41,18 +41,31 @@ impl<'sval> LabelBuf<'sval> {
     }
 
     pub(crate) fn i128(&mut self, v: impl TryInto<i128>) -> sval::Result {
-        *self = LabelBuf::I128(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        self.number(LabelBuf::I128(
+            v.try_into().map_err(|_| sval::Error::new())?,
+        ))
     }
 
     pub(crate) fn u128(&mut self, v: impl TryInto<u128>) -> sval::Result {
-        *self = LabelBuf::U128(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        self.number(LabelBuf::U128(
+            v.try_into().map_err(|_| sval::Error::new())?,
+        ))
     }
 
     pub(crate) fn f64(&mut self, v: impl TryInto<f64>) -> sval::Result {
-        *self = LabelBuf::F64(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        self.number(LabelBuf::F64(
+            v.try_into().map_err(|_| sval::Error::new())?,
+        ))
+    }
+
+    fn number(&mut self, number: LabelBuf<'sval>) -> sval::Result {
+        // If there's already something in the label then append to it
+        if let LabelBuf::Empty = self {
+            *self = number;
+            Ok(())
+        } else {
+            number.with_label(|label| self.text_fragment_computed(label.as_str()))
+        }
     }
 
     pub(crate) fn null(&mut self) -> sval::Result {
@@ -98,7 +111,17 @@ impl<'sval> LabelBuf<'sval> {
         match self {
             LabelBuf::Text(buf) => Ok(buf),
             _ => {
-                *self = LabelBuf::Text(TextBuf::new());
+                let mut buf = TextBuf::new();
+
+                // If there's already a number in the label then append to it
+                if !matches!(self, LabelBuf::Empty) {
+                    self.with_label(|label| {
+                        buf.push_fragment_computed(label.as_str())
+                            .map_err(|_| sval::Error::new())
+                    })?;
+                }
+
+                *self = LabelBuf::Text(buf);
                 if let LabelBuf::Text(buf) = self {
                     Ok(buf)
                 } else {
-- 
2.43.0


From 83d3ad42384f4df0adbddbb48b89985b0d1d7be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:37 +0000
Subject: [PATCH 20/24] fix: count enum variants with explicit indexes in the
 offsets of later variants

---
 derive_macros/src/derive/derive_enum.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/derive_macros/src/derive/derive_enum.rs b/derive_macros/src/derive/derive_enum.rs
index 41e107c..a0031d9 100644
--- a/derive_macros/src/derive/derive_enum.rs
+++ b/derive_macros/src/derive/derive_enum.rs
@@ -93,13 +93,14 @@ pub(crate) fn derive_enum<'a>(
     let mut index_allocator = IndexAllocator::new();
 
     let mut variant_index = |index: Option<Index>, discriminant: Option<IndexValue>| {
-        index.or_else(|| {
-            if attrs.dynamic || attrs.unindexed_variants {
-                None
-            } else {
-                Some(index_allocator.next_const_index(discriminant))
-            }
-        })
+        if attrs.dynamic || attrs.unindexed_variants {
+            index
+        } else {
+            // Variants with an explicit index still take up an offset
+            let next = index_allocator.next_const_index(discriminant);
+
+            Some(index.unwrap_or(next))
+        }
     };
 
     let variant_label = |label: Option<LabelValue>, ident: &Ident| {
-- 
2.43.0


From e6fa1715b0b17a3b778fb3b7df3075c1bbed0fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:09 +0000
Subject: [PATCH 21/24] fix: sval_nested: honour the no_debug_assertions
 feature

The feature exists and the panic message tells users to enable it, but the code
tested a bare cfg of that name, so enabling it changed nothing.
---
 nested/src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nested/src/error.rs b/nested/src/error.rs
index 38f89dd..f8138f5 100644
--- a/nested/src/error.rs
+++ b/nested/src/error.rs
@@ -53,11 +53,11 @@ impl Error {
         The pattern here is the same as what's used in `sval_buffer`.
         */
 
-        #[cfg(all(debug_assertions, not(no_debug_assertions), not(test)))]
+        #[cfg(all(debug_assertions, not(feature = "no_debug_assertions"), not(test)))]
         {
             panic!("attempt to allocate for {} would fail; add the `alloc` feature of `sval_nested` or the depdendent `sval_*` library to support allocation. This call will error instead of panicking in release builds. Add the `no_debug_assertions` feature of `sval_nested` if this error is expected.", method);
         }
-        #[cfg(not(all(debug_assertions, not(no_debug_assertions), not(test))))]
+        #[cfg(not(all(debug_assertions, not(feature = "no_debug_assertions"), not(test))))]
         {
             Error(ErrorKind::NoAlloc { method })
         }
-- 
2.43.0


From 191a927c649cd99b85de0f0bd0d2e5b30458ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:31 +0000
Subject: [PATCH 22/24] fix: sval_nested: keep label tag hints without an
 allocator

A static label passing through the recursive adapter lost its tag hint in builds
without the alloc feature.
---
 nested/src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/nested/src/lib.rs b/nested/src/lib.rs
index 1dd9105..05c857c 100644
--- a/nested/src/lib.rs
+++ b/nested/src/lib.rs
@@ -914,11 +914,10 @@ fn owned_label_ref(label: &sval::Label) -> Result<sval::Label<'static>> {
     }
     #[cfg(not(feature = "alloc"))]
     {
-        if let Some(label) = label.as_static_str() {
-            Ok(sval::Label::new(label))
-        } else {
-            Err(Error::no_alloc("streaming value"))
-        }
+        // This keeps any tag hint on the label
+        label
+            .try_to_owned()
+            .map_err(|_| Error::no_alloc("streaming value"))
     }
 }
 
-- 
2.43.0


From 74cee658caa12b35dcbb70c1270d9fbc79c3d065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:57 +0000
Subject: [PATCH 23/24] fix: sval_buffer: a fragment without text or binary
 around it is an error, not a panic

---
 buffer/src/value.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/buffer/src/value.rs b/buffer/src/value.rs
index 44b133c..83757b6 100644
--- a/buffer/src/value.rs
+++ b/buffer/src/value.rs
@@ -414,15 +414,15 @@ impl<'sval> sval::Stream<'sval> for ValueBuf<'sval> {
     }
 
     fn text_fragment(&mut self, fragment: &'sval str) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
-            ValueKind::Text(ref mut text) => text.push_fragment(fragment),
+        self.try_catch(|buf| match buf.current_mut() {
+            Some(ValueKind::Text(text)) => text.push_fragment(fragment),
             _ => Err(Error::outside_container("text")),
         })
     }
 
     fn text_fragment_computed(&mut self, fragment: &str) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
-            ValueKind::Text(ref mut text) => text.push_fragment_computed(fragment),
+        self.try_catch(|buf| match buf.current_mut() {
+            Some(ValueKind::Text(text)) => text.push_fragment_computed(fragment),
             _ => Err(Error::outside_container("text")),
         })
     }
@@ -441,15 +441,15 @@ impl<'sval> sval::Stream<'sval> for ValueBuf<'sval> {
     }
 
     fn binary_fragment(&mut self, fragment: &'sval [u8]) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
-            ValueKind::Binary(ref mut binary) => binary.push_fragment(fragment),
+        self.try_catch(|buf| match buf.current_mut() {
+            Some(ValueKind::Binary(binary)) => binary.push_fragment(fragment),
             _ => Err(Error::outside_container("binary")),
         })
     }
 
     fn binary_fragment_computed(&mut self, fragment: &[u8]) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
-            ValueKind::Binary(ref mut binary) => binary.push_fragment_computed(fragment),
+        self.try_catch(|buf| match buf.current_mut() {
+            Some(ValueKind::Binary(binary)) => binary.push_fragment_computed(fragment),
             _ => Err(Error::outside_container("binary")),
         })
     }
@@ -993,8 +993,8 @@ impl<'sval> ValueBuf<'sval> {
         Ok(())
     }
 
-    fn current_mut(&mut self) -> &mut ValuePart<'sval> {
-        self.parts.last_mut().expect("missing current")
+    fn current_mut(&mut self) -> Option<&mut ValueKind<'sval>> {
+        self.parts.last_mut().map(|part| &mut part.kind)
     }
 }
 
-- 
2.43.0


From 92d5ceabf045c9b8dfd6f7ae79ee38ee8bd1572c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:46 +0000
Subject: [PATCH 24/24] fix: sval_json: don't split characters in text that
 isn't a number

---
 json/src/to_fmt.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 2f4be85..5a42571 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -658,7 +658,11 @@ impl NumberTextHandler {
 
                         break;
                     }
-                    _ => range.end += 1,
+                    // Anything else isn't part of a leading sign or zeroes
+                    _ => {
+                        self.at_start = false;
+                        range.end += 1;
+                    }
                 }
             }
 
-- 
2.43.0

