From 1e9e14ff4940fced945888dbdbcf0c08ca19f33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 01/11] fix: emit the pending mapping start before a map,
 tagged value or enum variant used as the key of a one-entry map

---
 src/ser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ser.rs b/src/ser.rs
index 23c761b..f77f5cf 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -416,6 +416,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         value.serialize(&mut *self)
     }
@@ -460,6 +461,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         self.emit_sequence_start()?;
         Ok(self)
@@ -471,6 +473,7 @@ where
                 self.emit_mapping_start()?;
                 State::CheckForDuplicateTag
             } else {
+                self.flush_mapping_start()?;
                 State::CheckForTag
             };
         } else {
@@ -494,6 +497,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         self.emit_mapping_start()?;
         Ok(self)
-- 
2.43.0


From c4d2263bf0d6fd3cd1533ef6b513ac94e349044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 02/11] fix: give every anchor definition its own alias id, so
 redefining an anchor cannot redirect another alias

---
 src/loader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index 7c7c7b6..27dfc51 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -88,7 +88,7 @@ impl<'input> Loader<'input> {
                 },
                 YamlEvent::Scalar(mut scalar) => {
                     if let Some(anchor) = scalar.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
@@ -96,7 +96,7 @@ impl<'input> Loader<'input> {
                 }
                 YamlEvent::SequenceStart(mut sequence_start) => {
                     if let Some(anchor) = sequence_start.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
@@ -105,7 +105,7 @@ impl<'input> Loader<'input> {
                 YamlEvent::SequenceEnd => Event::SequenceEnd,
                 YamlEvent::MappingStart(mut mapping_start) => {
                     if let Some(anchor) = mapping_start.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
-- 
2.43.0


From 74db62e18c93033f826aa29a243f694a288f285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 03/11] fix: compare mappings nested in mapping keys
 independently of entry order

---
 src/mapping.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mapping.rs b/src/mapping.rs
index 667cd4b..7e87adc 100644
--- a/src/mapping.rs
+++ b/src/mapping.rs
@@ -404,7 +404,7 @@ impl PartialOrd for Mapping {
         let mut other_entries = Vec::from_iter(other);
 
         // Sort in an arbitrary order that is consistent with Value's PartialOrd
-        // impl.
+        // impl, and that does not depend on the order of entries in mappings.
         fn total_cmp(a: &Value, b: &Value) -> Ordering {
             match (a, b) {
                 (Value::Null, Value::Null) => Ordering::Equal,
@@ -428,6 +428,10 @@ impl PartialOrd for Mapping {
                 (_, Value::Sequence(_)) => Ordering::Greater,
 
                 (Value::Mapping(a), Value::Mapping(b)) => {
+                    let mut a = Vec::from_iter(a);
+                    let mut b = Vec::from_iter(b);
+                    a.sort_by(|&(ak, _), &(bk, _)| total_cmp(ak, bk));
+                    b.sort_by(|&(ak, _), &(bk, _)| total_cmp(ak, bk));
                     iter_cmp_by(a, b, |(ak, av), (bk, bv)| {
                         total_cmp(ak, bk).then_with(|| total_cmp(av, bv))
                     })
-- 
2.43.0


From 8b1df3dc4fe82d7f4e20e84ddda353b67e89ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 04/11] fix: apply merge keys of merged mappings too instead of
 leaving << in the result

---
 src/value/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 27a170b..aa1bc44 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -629,7 +629,13 @@ impl Value {
         while let Some(node) = stack.pop() {
             match node {
                 Value::Mapping(mapping) => {
-                    match mapping.remove("<<") {
+                    let mut merge = mapping.remove("<<");
+                    if let Some(merge) = &mut merge {
+                        // Merged mappings may themselves contain merge keys,
+                        // which must not end up in the surrounding mapping.
+                        merge.apply_merge()?;
+                    }
+                    match merge {
                         Some(Value::Mapping(merge)) => {
                             for (k, v) in merge {
                                 mapping.entry(k).or_insert(v);
-- 
2.43.0


From 2b8fb789020042d1fa0e2b5be7a8e833533adf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:02 +0000
Subject: [PATCH 05/11] fix: skip the rest of a document after an unknown alias
 instead of treating it as the next document, which panicked

---
 src/loader.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/loader.rs b/src/loader.rs
index 27dfc51..5f93abd 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -83,6 +83,13 @@ impl<'input> Loader<'input> {
                     Some(id) => Event::Alias(*id),
                     None => {
                         document.error = Some(error::new(ErrorImpl::UnknownAnchor(mark)).shared());
+                        // Skip the rest of this document so that it is not
+                        // mistaken for the next document.
+                        while let Ok((event, _)) = parser.next() {
+                            if let YamlEvent::DocumentEnd = event {
+                                break;
+                            }
+                        }
                         return Some(document);
                     }
                 },
-- 
2.43.0


From 5a6d05a4a8020fd9554f54dbf6823024fb33473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:02 +0000
Subject: [PATCH 06/11] fix: end document iteration after a syntax error
 instead of repeating the error forever

---
 src/loader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/loader.rs b/src/loader.rs
index 5f93abd..0cb0158 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -61,6 +61,8 @@ impl<'input> Loader<'input> {
                 Ok((event, mark)) => (event, mark),
                 Err(err) => {
                     document.error = Some(Error::from(err).shared());
+                    // There is no way to resume after a syntax error.
+                    self.parser = None;
                     return Some(document);
                 }
             };
-- 
2.43.0


From 795fa400c39fa22a208fd86e588a052ffc6b1760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 07/11] fix: read an empty tuple variant from a Value as a
 sequence, not as unit

---
 src/value/de.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index b1ff576..816840c 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -586,16 +586,12 @@ impl<'de> Deserializer<'de> for SeqDeserializer {
         V: Visitor<'de>,
     {
         let len = self.iter.len();
-        if len == 0 {
-            visitor.visit_unit()
+        let ret = visitor.visit_seq(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
         } else {
-            let ret = visitor.visit_seq(&mut self)?;
-            let remaining = self.iter.len();
-            if remaining == 0 {
-                Ok(ret)
-            } else {
-                Err(Error::invalid_length(len, &"fewer elements in sequence"))
-            }
+            Err(Error::invalid_length(len, &"fewer elements in sequence"))
         }
     }
 
@@ -1097,16 +1093,12 @@ impl<'de> Deserializer<'de> for SeqRefDeserializer<'de> {
         V: Visitor<'de>,
     {
         let len = self.iter.len();
-        if len == 0 {
-            visitor.visit_unit()
+        let ret = visitor.visit_seq(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
         } else {
-            let ret = visitor.visit_seq(&mut self)?;
-            let remaining = self.iter.len();
-            if remaining == 0 {
-                Ok(ret)
-            } else {
-                Err(Error::invalid_length(len, &"fewer elements in sequence"))
-            }
+            Err(Error::invalid_length(len, &"fewer elements in sequence"))
         }
     }
 
-- 
2.43.0


From 288c88dc57ffc983affe5dfa3e579a15a974c733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 08/11] fix: flush the underlying writer in Serializer::flush
 as documented

---
 src/libyaml/emitter.rs | 4 ++++
 src/ser.rs             | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/libyaml/emitter.rs b/src/libyaml/emitter.rs
index 686f06e..4a41f62 100644
--- a/src/libyaml/emitter.rs
+++ b/src/libyaml/emitter.rs
@@ -180,6 +180,10 @@ impl<'a> Emitter<'a> {
         Ok(())
     }
 
+    pub fn flush_writer(&mut self) -> Result<(), Error> {
+        unsafe { io::Write::flush(&mut (*self.pin.ptr).write) }.map_err(Error::Io)
+    }
+
     pub fn into_inner(self) -> Box<dyn io::Write + 'a> {
         let sink = Box::new(io::sink());
         unsafe { mem::replace(&mut (*self.pin.ptr).write, sink) }
diff --git a/src/ser.rs b/src/ser.rs
index f77f5cf..196eb5e 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -79,6 +79,7 @@ where
     /// object.
     pub fn flush(&mut self) -> Result<()> {
         self.emitter.flush()?;
+        self.emitter.flush_writer()?;
         Ok(())
     }
 
-- 
2.43.0


From 5e988fe7122cb3fccfffce9a1904ed214d25ccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:21 +0000
Subject: [PATCH 09/11] fix: a map announced with one entry that turns out
 empty was started twice

serialize_map(Some(1)) without entries left the output incomplete: to_string gave an empty text at the
root and an emitter error elsewhere.
---
 src/ser.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index 196eb5e..b4f2965 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -641,9 +641,7 @@ where
     }
 
     fn end(self) -> Result<()> {
-        if let State::CheckForTag = self.state {
-            self.emit_mapping_start()?;
-        }
+        self.flush_mapping_start()?;
         if !matches!(self.state, State::AlreadyTagged) {
             self.emit_mapping_end()?;
         }
-- 
2.43.0


From 6370f89ce198c40b0626645e53a181b8e8c7558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 10/11] fix: keep the leading '!' of a key displayed in more
 than two pieces

A key of a one-entry map written by Display as "!", "a", "b" came out as "ab".
---
 src/value/tagged.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/tagged.rs b/src/value/tagged.rs
index baf6a0a..18c308b 100644
--- a/src/value/tagged.rs
+++ b/src/value/tagged.rs
@@ -452,6 +452,7 @@ where
                 }
                 CheckForTag::Tag(string) => {
                     let mut string = mem::take(string);
+                    string.insert(0, '!');
                     string.push_str(s);
                     *self = CheckForTag::NotTag(string);
                 }
-- 
2.43.0


From 09a55568ef7012e3ff3354d353525eb9a2660826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:03 +0000
Subject: [PATCH 11/11] fix: read -0 as an unsigned integer from text as from a
 Value

---
 src/de.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/de.rs b/src/de.rs
index 566f5f0..5d26b57 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1396,6 +1396,9 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
                         if let Some(int) = parse_unsigned_int(value, u64::from_str_radix) {
                             break visitor.visit_u64(int);
                         }
+                        if let Some(int @ 0) = parse_negative_int(value, i64::from_str_radix) {
+                            break visitor.visit_i64(int);
+                        }
                     }
                 }
                 _ => {}
@@ -1421,6 +1424,9 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
                         if let Some(int) = parse_unsigned_int(value, u128::from_str_radix) {
                             break visitor.visit_u128(int);
                         }
+                        if let Some(int @ 0) = parse_negative_int(value, i64::from_str_radix) {
+                            break visitor.visit_i64(int);
+                        }
                     }
                 }
                 _ => {}
-- 
2.43.0

