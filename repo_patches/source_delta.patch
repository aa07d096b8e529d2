From 38ea7a813f8cb1f667f7d2da4ebfcb4c655e84be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:26 +0000
Subject: [PATCH 01/29] fix: decode large signed varints without sign extension

Zigzag decoding shifted the encoded value arithmetically, so values whose
magnitude reaches 2^(bits - 2) came back with the wrong sign or value.
---
 steit/src/impls/varint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steit/src/impls/varint.rs b/steit/src/impls/varint.rs
index 4a880fe..a369607 100644
--- a/steit/src/impls/varint.rs
+++ b/steit/src/impls/varint.rs
@@ -88,7 +88,7 @@ macro_rules! impl_signed_varint {
             }
 
             fn decode(value: $type) -> $type {
-                (value >> 1) ^ -(value & 1)
+                (value as $unsigned_type >> 1) as $type ^ -(value & 1)
             }
 
             fn compute_size(value: &$type) -> u32 {
-- 
2.43.0


From f26652c60b7caaf3e84098a9e54a6fbf04ad3aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:46 +0000
Subject: [PATCH 02/29] fix: don't overflow the shift when decoding over-long
 varints

A varint with more groups than its target type holds (also any skipped varint
field of three bytes or more) overflowed the shift, which panics in debug
builds and corrupts the value otherwise.
---
 steit/src/impls/varint.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/steit/src/impls/varint.rs b/steit/src/impls/varint.rs
index a369607..1ec62ee 100644
--- a/steit/src/impls/varint.rs
+++ b/steit/src/impls/varint.rs
@@ -46,18 +46,22 @@ macro_rules! impl_unsigned_varint {
                     let mut value = 0;
 
                     let mut buf = [0];
-                    let mut offset = 0;
+                    let mut offset = 0u32;
 
                     loop {
                         reader.read_exact(&mut buf)?;
-                        value |= (buf[0] & 0x7f) as $type << offset;
+
+                        // Bits which don't fit into the target type are dropped.
+                        if offset < <$type>::MAX.count_ones() {
+                            value |= (buf[0] & 0x7f) as $type << offset;
+                        }
 
                         if buf[0] & 0x80 == 0 {
                             *self = value;
                             return Ok(());
                         }
 
-                        offset += 7;
+                        offset = offset.saturating_add(7);
                     }
                 }
             }
-- 
2.43.0


From 4e1747ddd9a804a63edf116d9c708eab4abb863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 03/29] fix: skip unknown sized fields without trusting their
 size

Skipping reserved a buffer of whatever size the input declared, which aborts on
a corrupted size, and accepted a field cut short by the end of the input.
---
 steit/src/de/reader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index 3aaba8a..8b76cbc 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -48,8 +48,11 @@ impl<R: io::Read> Reader<R> {
 
             WireType::Sized => {
                 let size = u64::deserialize(self)?;
-                let mut buf = Vec::with_capacity(size as usize);
-                self.by_ref().take(size).read_to_end(&mut buf)?;
+                let skipped = io::copy(&mut self.by_ref().take(size), &mut io::sink())?;
+
+                if skipped < size {
+                    return Err(io::ErrorKind::UnexpectedEof.into());
+                }
             }
         }
 
-- 
2.43.0


From 0fde3d5f5425ebb9f5a101cd2b24e968b12a1208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:18 +0000
Subject: [PATCH 04/29] fix: reject nested messages cut short by the end of the
 input

A nested message whose declared size exceeds the remaining input was accepted
with whatever had been read, so a truncated log applied a partial entry.
---
 steit/src/de/de.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/steit/src/de/de.rs b/steit/src/de/de.rs
index 80ef6a4..49d63f5 100644
--- a/steit/src/de/de.rs
+++ b/steit/src/de/de.rs
@@ -24,7 +24,17 @@ pub trait Deserialize: Default + HasWireType {
 
         match wire_type {
             WireType::Varint => self.merge(reader),
-            WireType::Sized => self.merge(&mut reader.nested()?),
+            WireType::Sized => {
+                let mut nested = reader.nested()?;
+                self.merge(&mut nested)?;
+                io::copy(&mut nested, &mut io::sink())?;
+
+                if nested.into_inner().limit() > 0 {
+                    return Err(io::ErrorKind::UnexpectedEof.into());
+                }
+
+                Ok(())
+            }
         }
     }
 
-- 
2.43.0


From 7a70ea9f42112b27f0032fb8216eea199159577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 05/29] fix: link values inserted to a `Map` to its runtime

`Map::insert` kept the runtime of the inserted value, so later changes to that
value were logged elsewhere or not at all.
---
 steit/src/types/map/map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 96350fc..d21dce6 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -58,8 +58,9 @@ impl<K: MapKey, V: State> Map<K, V> {
         self.entries.get_mut(&key.as_field_number())
     }
 
-    pub fn insert(&mut self, key: K, value: V) -> Option<V> {
+    pub fn insert(&mut self, key: K, mut value: V) -> Option<V> {
         let field_number = key.as_field_number();
+        value.set_runtime(self.runtime.nested(field_number));
         self.runtime.log_update_child(field_number, &value).unwrap();
         self.entries.insert(field_number, value)
     }
-- 
2.43.0


From 75a3cf786b9b7e42c9a03acb4f340209a7f0bed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 06/29] fix: don't log the removal of a missing `Map` key

Removing a key which isn't there logged an entry no replica can replay.
---
 steit/src/types/map/map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index d21dce6..4f8cb24 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -75,6 +75,11 @@ impl<K: MapKey, V: State> Map<K, V> {
 
     pub fn remove(&mut self, key: &K) -> Option<V> {
         let field_number = key.as_field_number();
+
+        if !self.entries.contains_key(&field_number) {
+            return None;
+        }
+
         self.runtime.log_map_remove(field_number).unwrap();
         self.entries.remove(&field_number)
     }
-- 
2.43.0


From 50c39bc51f28241354b811ff8b4df20b17e7027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 07/29] fix: validate keys when replaying `Map` insertions

Replaying an insertion with a key outside of the range of the key type made
later iteration or serialization panic.
---
 steit/src/types/map/map.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 4f8cb24..a6e3772 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -235,6 +235,9 @@ impl<K: MapKey, V: State> State for Map<K, V> {
             if let Some(value) = self.entries.get_mut(&field_number) {
                 value.handle(path, kind, key, reader)
             } else if kind == LogEntryKind::Update && path.next().is_none() {
+                wire_fmt::validate_field_number(field_number)?;
+                K::try_from_field_number(field_number)?;
+
                 let mut value = V::with_runtime(self.runtime.nested(field_number));
                 value.merge(reader)?;
 
-- 
2.43.0


From d68d4ca42fc7b87678fbf92c0cce4467d4d63a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:24 +0000
Subject: [PATCH 08/29] fix: respect wire types when merging a `Map`

Merging read every entry as if it had the wire type of the value type, while
the same mismatch is skipped everywhere else.
---
 steit/src/types/map/map.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index a6e3772..6d9bccd 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -190,15 +190,17 @@ impl<K: MapKey, V: State> Deserialize for Map<K, V> {
     fn merge(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
         while !reader.eof()? {
             let field_number = u32::deserialize(reader)?;
-            let (field_number, _) = wire_fmt::parse_tag(field_number)?;
+            let (field_number, wire_type) = wire_fmt::parse_tag(field_number)?;
             wire_fmt::validate_field_number(field_number)?;
             K::try_from_field_number(field_number)?;
 
-            if let Some(value) = self.entries.get_mut(&field_number) {
-                value.merge_nested(V::WIRE_TYPE, reader)?;
+            if wire_type != V::WIRE_TYPE {
+                reader.skip_field(wire_type)?;
+            } else if let Some(value) = self.entries.get_mut(&field_number) {
+                value.merge_nested(wire_type, reader)?;
             } else {
                 let mut value = V::with_runtime(self.runtime.nested(field_number));
-                value.merge_nested(V::WIRE_TYPE, reader)?;
+                value.merge_nested(wire_type, reader)?;
                 self.entries.insert(field_number, value);
             }
         }
-- 
2.43.0


From 76348dc02394d1c85f2d044987aeb0b537d16353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 09/29] fix: refuse `Map` keys which cannot be serialized

A key greater than 2^29 - 1 was accepted by `Map::insert` and only made a later
serialization panic, when the entry had already been logged.
---
 steit/src/types/map/map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 6d9bccd..e8c546c 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -60,6 +60,7 @@ impl<K: MapKey, V: State> Map<K, V> {
 
     pub fn insert(&mut self, key: K, mut value: V) -> Option<V> {
         let field_number = key.as_field_number();
+        wire_fmt::validate_field_number(field_number).unwrap();
         value.set_runtime(self.runtime.nested(field_number));
         self.runtime.log_update_child(field_number, &value).unwrap();
         self.entries.insert(field_number, value)
-- 
2.43.0


From 068b35d25bfbcdbdc5338cb56ee36d0355aa0232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 10/29] fix: link items collected to a `List` or a `Map` to its
 runtime

Collected items kept their own runtimes, so later changes to them were not
logged.
---
 steit/src/types/list.rs    | 7 +++++--
 steit/src/types/map/map.rs | 8 ++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index e07e9b1..b72a988 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -131,10 +131,13 @@ impl<T: State> ops::IndexMut<usize> for List<T> {
 
 impl<T: State> FromIterator<T> for List<T> {
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
-        Self {
+        let mut list = Self {
             items: iter.into_iter().collect(),
             ..Default::default()
-        }
+        };
+
+        list.set_runtime(list.runtime.clone());
+        list
     }
 }
 
diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index e8c546c..80aa263 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -128,16 +128,20 @@ impl<K: MapKey, V: State> Default for Map<K, V> {
 
 impl<K: MapKey, V: State> FromIterator<(K, V)> for Map<K, V> {
     fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> Self {
-        Self {
+        let mut map = Self {
             entries: iter
                 .into_iter()
                 .map(|(key, value)| {
                     let key = key.as_field_number();
+                    wire_fmt::validate_field_number(key).unwrap();
                     (key, value)
                 })
                 .collect(),
             ..Default::default()
-        }
+        };
+
+        map.set_runtime(map.runtime.clone());
+        map
     }
 }
 
-- 
2.43.0


From d9e3a37ead739065d2ff990ac1699a5d209854ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 11/29] fix: re-address enum items moved by `List::swap_remove`

The moved item took the runtime path of a sibling of the removed item, which
for an enum is the path of another variant instead of another index.
---
 steit/src/types/list.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index b72a988..b3ce7b3 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -103,8 +103,7 @@ impl<T: State> List<T> {
         let swapped = &mut self.items[index];
 
         if swapped.wire_type() == WireType::Sized {
-            let runtime = removed.runtime().sibling(index as u32);
-            swapped.set_runtime(runtime);
+            swapped.set_runtime(self.runtime.nested(index as u32));
         }
 
         Some(removed)
-- 
2.43.0


From 1d1c433bc91ea33f7d53e752b62b4fab786c5efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 12/29] fix: link `Maybe` values to the runtime they are built
 with

`Maybe::some` and `Maybe::none` left out the variant from the runtime path and
didn't link the inner value, so changes were logged at a wrong path and replaying
on a root `Maybe` built this way panicked.
---
 steit/src/types/maybe.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/steit/src/types/maybe.rs b/steit/src/types/maybe.rs
index cce3f68..4659bc0 100644
--- a/steit/src/types/maybe.rs
+++ b/steit/src/types/maybe.rs
@@ -20,7 +20,10 @@ pub enum Maybe<T: State> {
 }
 
 impl<T: State> Maybe<T> {
-    pub fn some(runtime: Runtime, value: T) -> Self {
+    pub fn some(runtime: Runtime, mut value: T) -> Self {
+        let runtime = runtime.nested(1);
+        value.set_runtime(runtime.nested(0));
+
         Maybe::Some {
             value,
             size_cache: SizeCache::new(),
@@ -29,7 +32,9 @@ impl<T: State> Maybe<T> {
     }
 
     pub fn none(runtime: Runtime) -> Self {
-        Maybe::None { runtime }
+        Maybe::None {
+            runtime: runtime.nested(0),
+        }
     }
 
     pub fn from_option(runtime: Runtime, option: Option<T>) -> Self {
-- 
2.43.0


From 15b1fc05771b88a775ba6e6ee8c83805f5188bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 13/29] fix: forward `is_root` and `handle_update` of a `Box`

A boxed enum was never regarded as a root, so nothing could be replayed on it.
---
 steit/src/impls/box.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/steit/src/impls/box.rs b/steit/src/impls/box.rs
index 7802a7c..177a7d4 100644
--- a/steit/src/impls/box.rs
+++ b/steit/src/impls/box.rs
@@ -47,6 +47,14 @@ impl<T: State> State for Box<T> {
         self.as_mut().set_runtime(runtime)
     }
 
+    fn is_root(&self) -> bool {
+        self.as_ref().is_root()
+    }
+
+    fn handle_update(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
+        self.as_mut().handle_update(reader)
+    }
+
     fn handle(
         &mut self,
         path: impl Iterator<Item = u32>,
-- 
2.43.0


From bb0ee968ee63a9cf472f66e7266edf80bb97c0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 14/29] fix: keep logging other states while a value is being
 built

`push_with`, `insert_with` and `set_*_with` paused the logger shared by the whole
state tree, so whatever other parts of it changed before the callback returned,
also in other threads, was lost, and everything was if the callback panicked.
---
 steit-derive/src/derive/field.rs |  6 +++---
 steit/src/rt/runtime.rs          | 13 ++++++++++++-
 steit/src/types/list.rs          |  6 +++---
 steit/src/types/map/map.rs       |  4 +---
 4 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/steit-derive/src/derive/field.rs b/steit-derive/src/derive/field.rs
index f2f0bce..55a82b2 100644
--- a/steit-derive/src/derive/field.rs
+++ b/steit-derive/src/derive/field.rs
@@ -309,9 +309,9 @@ impl<'a> DeriveField<'a> {
                     pub fn #setter_with_name(&mut self, get_value: impl FnOnce(Runtime) -> #ty) -> &mut Self {
                         #reset_variant
                         #declare_runtime
-                        runtime.pause_logger();
-                        let value = get_value(runtime.nested(#tag));
-                        runtime.unpause_logger();
+                        let runtime_nested = runtime.nested(#tag);
+                        let mut value = get_value(runtime_nested.detached());
+                        value.set_runtime(runtime_nested);
                         #log_update
                         #set_value
                         self
diff --git a/steit/src/rt/runtime.rs b/steit/src/rt/runtime.rs
index abb68c0..ed2f24b 100644
--- a/steit/src/rt/runtime.rs
+++ b/steit/src/rt/runtime.rs
@@ -8,7 +8,10 @@ use std::{
 use serde::Serialize as JsonSerialize;
 
 use crate::{
-    log::{loggers::BufferLogger, LogEntry, Logger},
+    log::{
+        loggers::{BufferLogger, NoopLogger},
+        LogEntry, Logger,
+    },
     ser::Serialize,
 };
 
@@ -83,6 +86,14 @@ impl Runtime {
         }
     }
 
+    /// Returns a runtime at the same path which doesn't log anything.
+    pub fn detached(&self) -> Self {
+        Self {
+            logger: Arc::new(Mutex::new(RuntimeLogger::new(NoopLogger::new()))),
+            path: self.path.clone(),
+        }
+    }
+
     pub fn path(&self) -> &Arc<Node<u32>> {
         &self.path
     }
diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index b3ce7b3..41ca330 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -60,9 +60,9 @@ impl<T: State> List<T> {
     pub fn push_with(&mut self, get_item: impl FnOnce(Runtime) -> T) -> usize {
         let field_number = self.items.len() as u32;
 
-        self.runtime.pause_logger();
-        let item = get_item(self.runtime.nested(field_number));
-        self.runtime.unpause_logger();
+        let runtime = self.runtime.nested(field_number);
+        let mut item = get_item(runtime.detached());
+        item.set_runtime(runtime);
 
         self.runtime.log_list_push(&item).unwrap();
         self.items.push(item);
diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 80aa263..b59927c 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -68,9 +68,7 @@ impl<K: MapKey, V: State> Map<K, V> {
 
     pub fn insert_with(&mut self, key: K, get_value: impl FnOnce(Runtime) -> V) -> Option<V> {
         let tag = key.as_field_number();
-        self.runtime.pause_logger();
-        let value = get_value(self.runtime.nested(tag));
-        self.runtime.unpause_logger();
+        let value = get_value(self.runtime.nested(tag).detached());
         self.insert(key, value)
     }
 
-- 
2.43.0


From 79749af42444bc9961da419308ea56520b898f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 15/29] fix: detach values removed from a `List` or a `Map`

Removed values kept logging at the path they used to be at, which replicas apply
to whatever is there now, or fail to replay.
---
 steit/src/types/list.rs    | 12 ++++++++++--
 steit/src/types/map/map.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index 41ca330..115b2ac 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -73,7 +73,13 @@ impl<T: State> List<T> {
     pub fn pop(&mut self) -> Option<T> {
         if !self.items.is_empty() {
             self.runtime.log_list_pop().unwrap();
-            self.items.pop()
+            let mut removed = self.items.pop();
+
+            if let Some(removed) = &mut removed {
+                removed.set_runtime(Runtime::new());
+            }
+
+            removed
         } else {
             None
         }
@@ -99,7 +105,9 @@ impl<T: State> List<T> {
             ])
             .unwrap();
 
-        let removed = self.items.swap_remove(index);
+        let mut removed = self.items.swap_remove(index);
+        removed.set_runtime(Runtime::new());
+
         let swapped = &mut self.items[index];
 
         if swapped.wire_type() == WireType::Sized {
diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index b59927c..51fedfa 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -63,7 +63,7 @@ impl<K: MapKey, V: State> Map<K, V> {
         wire_fmt::validate_field_number(field_number).unwrap();
         value.set_runtime(self.runtime.nested(field_number));
         self.runtime.log_update_child(field_number, &value).unwrap();
-        self.entries.insert(field_number, value)
+        detach(self.entries.insert(field_number, value))
     }
 
     pub fn insert_with(&mut self, key: K, get_value: impl FnOnce(Runtime) -> V) -> Option<V> {
@@ -80,7 +80,7 @@ impl<K: MapKey, V: State> Map<K, V> {
         }
 
         self.runtime.log_map_remove(field_number).unwrap();
-        self.entries.remove(&field_number)
+        detach(self.entries.remove(&field_number))
     }
 
     pub fn iter(&self) -> MapIter<K, V> {
@@ -96,6 +96,14 @@ impl<K: MapKey, V: State> Map<K, V> {
     }
 }
 
+fn detach<V: State>(mut removed: Option<V>) -> Option<V> {
+    if let Some(removed) = &mut removed {
+        removed.set_runtime(Runtime::new());
+    }
+
+    removed
+}
+
 impl<K: MapKey, V: State> ops::Index<&K> for Map<K, V> {
     type Output = V;
 
-- 
2.43.0


From 9e46cc63bc1ea8d33644edf2da632f1e9f06625c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:12 +0000
Subject: [PATCH 16/29] fix: forward `log_multi` to the underlying logger

A logger overriding `log_multi`, for example to make it all-or-nothing, never had
it called.
---
 steit/src/log/logger.rs | 4 ++++
 steit/src/rt/logger.rs  | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/steit/src/log/logger.rs b/steit/src/log/logger.rs
index 6559f1c..bdd4316 100644
--- a/steit/src/log/logger.rs
+++ b/steit/src/log/logger.rs
@@ -18,4 +18,8 @@ impl<T: ?Sized + Logger> Logger for Box<T> {
     fn log(&mut self, entry: LogEntry) -> io::Result<()> {
         self.as_mut().log(entry)
     }
+
+    fn log_multi(&mut self, entries: Vec<LogEntry>) -> io::Result<()> {
+        self.as_mut().log_multi(entries)
+    }
 }
diff --git a/steit/src/rt/logger.rs b/steit/src/rt/logger.rs
index 4a691fe..8af24e8 100644
--- a/steit/src/rt/logger.rs
+++ b/steit/src/rt/logger.rs
@@ -36,6 +36,14 @@ impl<T: Logger> Logger for RuntimeLogger<T> {
 
         Ok(())
     }
+
+    fn log_multi(&mut self, entries: Vec<LogEntry>) -> io::Result<()> {
+        if self.paused == 0 {
+            self.inner.log_multi(entries)?;
+        }
+
+        Ok(())
+    }
 }
 
 impl<T: Logger> PausableLogger for RuntimeLogger<T> {
-- 
2.43.0


From cc3a0990c65d21a8a09822f12065aa5a955c3942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 17/29] fix: don't confuse fields of variants with local
 variables

---
 steit-derive/src/derive/field.rs  | 8 +++-----
 steit-derive/src/derive/struct.rs | 7 +++----
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/steit-derive/src/derive/field.rs b/steit-derive/src/derive/field.rs
index 55a82b2..f1f8ea0 100644
--- a/steit-derive/src/derive/field.rs
+++ b/steit-derive/src/derive/field.rs
@@ -154,10 +154,6 @@ impl Field {
         self.init(name.into_token_stream())
     }
 
-    pub fn destructure_alias(&self) -> TokenStream {
-        self.destructure(self.alias())
-    }
-
     pub fn destructure_alias_prefixed(&self, prefix: impl Into<Option<syn::Ident>>) -> TokenStream {
         self.destructure(self.alias_prefixed(prefix))
     }
@@ -168,7 +164,9 @@ impl Field {
         is_variant: bool,
     ) -> TokenStream {
         if is_variant {
-            self.alias_prefixed(other).into_token_stream()
+            // Prefixed so that it is never mistaken for a local variable.
+            let prefix = other.into().unwrap_or_else(|| format_ident!("this"));
+            self.alias_prefixed(prefix).into_token_stream()
         } else {
             let other = other
                 .into()
diff --git a/steit-derive/src/derive/struct.rs b/steit-derive/src/derive/struct.rs
index d7e6297..68d8543 100644
--- a/steit-derive/src/derive/struct.rs
+++ b/steit-derive/src/derive/struct.rs
@@ -173,12 +173,11 @@ impl<'a> Struct<'a> {
     }
 
     pub fn destructure(&self) -> TokenStream {
-        let destructure = map_fields!(self, _.destructure_alias());
-        quote!(#(#destructure,)*)
+        self.destructure_prefixed(format_ident!("this"))
     }
 
-    pub fn destructure_prefixed(&self, prefix: impl Into<Option<syn::Ident>>) -> TokenStream {
-        let prefix = &prefix.into();
+    pub fn destructure_prefixed(&self, prefix: syn::Ident) -> TokenStream {
+        let prefix = Some(prefix);
         let destructure = map_fields!(self, _.destructure_alias_prefixed(prefix.clone()));
         quote!(#(#destructure,)*)
     }
-- 
2.43.0


From 314f964e5e57dd478a91d4f7efc284e2750145ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 18/29] fix: derive constructors along with Default, which uses
 them

---
 steit-derive/src/derive/derive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steit-derive/src/derive/derive.rs b/steit-derive/src/derive/derive.rs
index 60b16c8..7fd61ab 100644
--- a/steit-derive/src/derive/derive.rs
+++ b/steit-derive/src/derive/derive.rs
@@ -112,7 +112,7 @@ impl DeriveSetting {
         let has_size_cache = derive_serialize && !no_size_cache.get().unwrap_or_default();
         let has_runtime = derive_state;
 
-        let derive_ctors = derive_deserialize || derive_ctors.get().unwrap_or_default();
+        let derive_ctors = derive_default || derive_ctors.get().unwrap_or_default();
         let derive_setters = derive_state || derive_setters.get().unwrap_or_default();
         let derive_wire_type = derive_serialize || derive_deserialize;
         let derive_meta = derive_deserialize && !no_meta.get().unwrap_or_default();
-- 
2.43.0


From 4cd6ece11f50e255c867dcfc4e62fd5a28036634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 19/29] fix: derive an enum's constructors along with its
 setters, which call them

---
 steit-derive/src/derive/enum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steit-derive/src/derive/enum.rs b/steit-derive/src/derive/enum.rs
index b56da2b..12ecd51 100644
--- a/steit-derive/src/derive/enum.rs
+++ b/steit-derive/src/derive/enum.rs
@@ -576,7 +576,8 @@ fn parse_variants<'a>(
 
 impl<'a> ToTokens for Enum<'a> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
-        if self.setting.derive_ctors {
+        // The setters call the constructors of their variants.
+        if self.setting.derive_ctors || self.setting.derive_setters {
             tokens.extend(self.impl_ctors());
         }
 
-- 
2.43.0


From 07913110f34b4036083b62f7de942a6161145563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 20/29] fix: let a derived type have a parameter named H

---
 steit-derive/src/derive/enum.rs   | 2 +-
 steit-derive/src/derive/struct.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/steit-derive/src/derive/enum.rs b/steit-derive/src/derive/enum.rs
index 12ecd51..2885af8 100644
--- a/steit-derive/src/derive/enum.rs
+++ b/steit-derive/src/derive/enum.rs
@@ -200,7 +200,7 @@ impl<'a> Enum<'a> {
         self.impler.impl_for(
             "Hash",
             quote! {
-                fn hash<H: Hasher>(&self, state: &mut H) {
+                fn hash<__H: Hasher>(&self, state: &mut __H) {
                     match self { #(#hashers)* }
                 }
             },
diff --git a/steit-derive/src/derive/struct.rs b/steit-derive/src/derive/struct.rs
index 68d8543..c3569f8 100644
--- a/steit-derive/src/derive/struct.rs
+++ b/steit-derive/src/derive/struct.rs
@@ -291,7 +291,7 @@ impl<'a> Struct<'a> {
         self.impler.impl_for(
             "Hash",
             quote! {
-                fn hash<H: Hasher>(&self, state: &mut H) {
+                fn hash<__H: Hasher>(&self, state: &mut __H) {
                     #hasher
                 }
             },
-- 
2.43.0


From a6ba780775f4d67fd3c65eab72df9352e5a2079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 21/29] fix: name the item type of a `Map` behind a type alias

---
 steit/src/gen/generators/csharp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index 214652d..61c55b1 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -643,8 +643,9 @@ fn field_type(ty: &'static FieldTypeMeta) -> String {
                     return type_args[0].clone();
                 }
 
-                // A hack to shadow the first type argument of `Map`
-                if &type_name == "StateMap" {
+                // A hack to shadow the first type argument of `Map`,
+                // which isn't there if `Map` is behind a type alias
+                if &type_name == "StateMap" && type_args.len() > 1 {
                     type_args.remove(0);
                 }
 
-- 
2.43.0


From 2b07e03572e0982ab658dd7319beef035bbfdf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 22/29] fix: decode large signed varints on the client without
 sign extension

---
 steit-csharp/src/Codec/Reader.cs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/steit-csharp/src/Codec/Reader.cs b/steit-csharp/src/Codec/Reader.cs
index d068dab..2b0e87a 100644
--- a/steit-csharp/src/Codec/Reader.cs
+++ b/steit-csharp/src/Codec/Reader.cs
@@ -38,8 +38,8 @@ namespace Steit.Codec {
         }
 
         public static long ReadSignedVarint(this IReader reader) {
-            long value = (long) reader.ReadUnsignedVarint();
-            return (value >> 1) ^ -(value & 1);
+            ulong value = reader.ReadUnsignedVarint();
+            return (long) (value >> 1) ^ -(long) (value & 1);
         }
 
         public static Byte ReadByte(this IReader reader) { return (Byte) reader.ReadUnsignedVarint(); }
-- 
2.43.0


From 1832a9b4d55d67948b691eede11d307550884063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 23/29] fix: deserialize an `Option` of states without a path
 on the client

---
 steit-csharp/src/Builtins/Option.cs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/steit-csharp/src/Builtins/Option.cs b/steit-csharp/src/Builtins/Option.cs
index d3d34e6..210ba52 100644
--- a/steit-csharp/src/Builtins/Option.cs
+++ b/steit-csharp/src/Builtins/Option.cs
@@ -30,6 +30,8 @@ namespace Steit.Builtins {
         }
 
         public static Option<T> Deserialize(IReader reader, Path path = null) {
+            path = path ?? Path.Root;
+
             if (!reader.EndOfStream()) {
                 return Some(path, StateFactory.DeserializeNested<T>(reader, path, 0));
             } else {
-- 
2.43.0


From 491b6c44afed3535d7d7f1e3613f9e7b1abdbfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 24/29] fix: let `StateFactory` construct collections on the
 client

---
 steit-csharp/src/Builtins/Bytes.cs        | 3 +++
 steit-csharp/src/Collections/StateList.cs | 3 +++
 steit-csharp/src/Collections/StateMap.cs  | 3 +++
 steit-csharp/src/Collections/Vector.cs    | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/steit-csharp/src/Builtins/Bytes.cs b/steit-csharp/src/Builtins/Bytes.cs
index d120867..2342eb4 100644
--- a/steit-csharp/src/Builtins/Bytes.cs
+++ b/steit-csharp/src/Builtins/Bytes.cs
@@ -8,6 +8,9 @@ namespace Steit.Builtins {
     public sealed partial class Bytes : ReadOnlyCollection<Byte>, IState {
         public Path Path { get; }
 
+        // `StateFactory` looks for a constructor which takes exactly a `Path`.
+        public Bytes(Path path) : this(path, null) { }
+
         // public Bytes(Path? path = null, byte[]? bytes = null) : base(bytes ?? new byte[0]) {
         public Bytes(Path path = null, byte[] bytes = null) : base(bytes ?? new byte[0]) {
             this.Path = path ?? Path.Root;
diff --git a/steit-csharp/src/Collections/StateList.cs b/steit-csharp/src/Collections/StateList.cs
index ccef903..366b2ca 100644
--- a/steit-csharp/src/Collections/StateList.cs
+++ b/steit-csharp/src/Collections/StateList.cs
@@ -10,6 +10,9 @@ namespace Steit.Collections {
     public sealed partial class StateList<T> : ReadOnlyCollection<T>, IState {
         public Path Path { get; }
 
+        // `StateFactory` looks for a constructor which takes exactly a `Path`.
+        public StateList(Path path) : this(path, null) { }
+
         // public StateList(Path? path = null, IList<T>? items = null) : base(items ?? new List<T>()) {
         public StateList(Path path = null, IList<T> items = null) : base(items ?? new List<T>()) {
             StateFactory.ValidateType(typeof(T));
diff --git a/steit-csharp/src/Collections/StateMap.cs b/steit-csharp/src/Collections/StateMap.cs
index c14223a..3f8fd5a 100644
--- a/steit-csharp/src/Collections/StateMap.cs
+++ b/steit-csharp/src/Collections/StateMap.cs
@@ -10,6 +10,9 @@ namespace Steit.Collections {
     public sealed partial class StateMap<T> : ReadOnlyDictionary<UInt32, T>, IState {
         public Path Path { get; }
 
+        // `StateFactory` looks for a constructor which takes exactly a `Path`.
+        public StateMap(Path path) : this(path, null) { }
+
         // public StateMap(Path? path = null, IDictionary<UInt32, T>? items = null) : base(items ?? new Dictionary<UInt32, T>()) {
         public StateMap(Path path = null, IDictionary<UInt32, T> items = null) : base(items ?? new Dictionary<UInt32, T>()) {
             StateFactory.ValidateType(typeof(T));
diff --git a/steit-csharp/src/Collections/Vector.cs b/steit-csharp/src/Collections/Vector.cs
index e3dc086..aa3b72d 100644
--- a/steit-csharp/src/Collections/Vector.cs
+++ b/steit-csharp/src/Collections/Vector.cs
@@ -9,6 +9,9 @@ namespace Steit.Collections {
     public sealed partial class Vector<T> : ReadOnlyCollection<T>, IState {
         public Path Path { get; }
 
+        // `StateFactory` looks for a constructor which takes exactly a `Path`.
+        public Vector(Path path) : this(path, null) { }
+
         // public Vector(Path? path = null, IList<T>? items = null) : base(items ?? new List<T>()) {
         public Vector(Path path = null, IList<T> items = null) : base(items ?? new List<T>()) {
             StateFactory.ValidateType(typeof(T));
-- 
2.43.0


From fff0421d8ede8e3f7a88da162b43cc71f3f8f8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 25/29] fix: collect types reachable only through a `Box`

---
 steit/src/impls/box.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/steit/src/impls/box.rs b/steit/src/impls/box.rs
index 177a7d4..7c2b554 100644
--- a/steit/src/impls/box.rs
+++ b/steit/src/impls/box.rs
@@ -74,11 +74,8 @@ impl<T: HasMeta> HasMeta for Box<T> {
 
     const TYPE: &'static TypeMeta = T::TYPE;
 
-    const LINK: &'static MetaLink = &MetaLink {
-        r#type: Self::TYPE,
-        msg: None,
-        links: || &[T::LINK],
-    };
+    // A box shares its type with its content, so it must not be visited on its own.
+    const LINK: &'static MetaLink = T::LINK;
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1cd9973e4d57735e412ed3576a097279add7508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 26/29] fix: generate fields of boxed types like those of their
 contents

---
 steit/src/gen/generators/csharp.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index 61c55b1..d795931 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -139,7 +139,7 @@ impl Generator for CSharpGenerator {
 
         // Initiate nested states
         for field in &fields {
-            let init = match field.meta.ty {
+            let init = match *unbox(field.meta.ty) {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => None,
                 FieldTypeMeta::Type(TypeMeta::Ref(_, _)) => Some(format!(
                     "new {}(this.Path.GetNested({}))",
@@ -245,7 +245,7 @@ impl Generator for CSharpGenerator {
 
         // Return wire types
         for field in r#struct.fields {
-            let wire_type = match field.ty {
+            let wire_type = match *unbox(field.ty) {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, wire_type)) => match wire_type {
                     WireType::Varint => "WireType.Varint".to_string(),
                     WireType::Sized => "WireType.Sized".to_string(),
@@ -274,7 +274,7 @@ impl Generator for CSharpGenerator {
 
         // Return nested states
         for field in &fields {
-            let nested = match field.meta.ty {
+            let nested = match *unbox(field.meta.ty) {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => None,
                 FieldTypeMeta::Type(TypeMeta::Ref(_, _)) => {
                     Some(format!("this.{}", field.upper_camel_case_name))
@@ -300,7 +300,7 @@ impl Generator for CSharpGenerator {
 
         // Replace fields and notify event handlers
         for field in &fields {
-            match field.meta.ty {
+            match *unbox(field.meta.ty) {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => {
                     writer.writeln(format!(
                         "case {0}: this.{1} = this.MaybeNotify({0}, reader.Read{2}(), this.{1}, On{1}Update, shouldNotify); break;",
@@ -621,6 +621,15 @@ fn type_params(type_params: &'static [&'static str]) -> String {
     format!("<{}>", type_params.join(", "))
 }
 
+fn unbox(ty: &'static FieldTypeMeta) -> &'static FieldTypeMeta {
+    match *ty {
+        FieldTypeMeta::Type(TypeMeta::Ref(name, [type_arg])) if name.rust == "Box" => {
+            unbox(type_arg)
+        }
+        _ => ty,
+    }
+}
+
 fn field_type(ty: &'static FieldTypeMeta) -> String {
     match *ty {
         FieldTypeMeta::Type(ty) => match ty {
-- 
2.43.0


From 48999fefd0ca44c4146c01ac9c6e22735e449d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:54 +0000
Subject: [PATCH 27/29] fix: generated local variables must not be named like
 keywords or parameters

---
 steit/src/gen/generators/csharp.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index d795931..1f0a52c 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -75,7 +75,7 @@ impl Generator for CSharpGenerator {
         writer: &mut Writer,
     ) {
         let name = r#struct.name.csharp(String::from);
-        let var_name = str_util::uncap_first_char(&name);
+        let var_name = local_var_name(&name);
 
         let type_name = if !is_variant {
             format!("{}{}", &name, type_params(r#struct.type_params))
@@ -373,7 +373,7 @@ impl Generator for CSharpGenerator {
 
     fn gen_enum(&self, r#enum: &EnumMeta, setting: &Self::Setting, writer: &mut Writer) {
         let name = r#enum.name.csharp(String::from);
-        let var_name = str_util::uncap_first_char(&name);
+        let var_name = local_var_name(&name);
         let type_name = format!("{}{}", &name, type_params(r#enum.type_params));
 
         let variants: Vec<_> = r#enum
@@ -576,6 +576,28 @@ impl Generator for CSharpGenerator {
     }
 }
 
+/// Returns the name of a local variable which holds an instance of the specified class,
+/// which must be neither a keyword of C# nor the name of a parameter.
+fn local_var_name(class_name: &str) -> String {
+    let name = str_util::uncap_first_char(class_name);
+
+    match name.as_str() {
+        "abstract" | "as" | "base" | "bool" | "break" | "byte" | "case" | "catch" | "char"
+        | "checked" | "class" | "const" | "continue" | "decimal" | "default" | "delegate"
+        | "do" | "double" | "else" | "enum" | "event" | "explicit" | "extern" | "false"
+        | "finally" | "fixed" | "float" | "for" | "foreach" | "goto" | "if" | "implicit" | "in"
+        | "int" | "interface" | "internal" | "is" | "lock" | "long" | "namespace" | "new"
+        | "null" | "object" | "operator" | "out" | "override" | "params" | "private"
+        | "protected" | "public" | "readonly" | "ref" | "return" | "sbyte" | "sealed" | "short"
+        | "sizeof" | "stackalloc" | "static" | "string" | "struct" | "switch" | "this"
+        | "throw" | "true" | "try" | "typeof" | "uint" | "ulong" | "unchecked" | "unsafe"
+        | "ushort" | "using" | "virtual" | "void" | "volatile" | "while" | "path" | "reader" => {
+            format!("{}_", name)
+        }
+        _ => name,
+    }
+}
+
 struct CSharpField {
     meta: &'static FieldMeta,
     // UpperCamelCase
-- 
2.43.0


From aa71af35e5ce706f4d8a9a6f75eaf42bb0eaee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:36 +0000
Subject: [PATCH 28/29] fix: report errors of writing a generated file

---
 steit/src/gen/generator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steit/src/gen/generator.rs b/steit/src/gen/generator.rs
index 13072d0..1e2bcda 100644
--- a/steit/src/gen/generator.rs
+++ b/steit/src/gen/generator.rs
@@ -54,6 +54,7 @@ pub trait Generator {
             let mut writer = io::BufWriter::new(file);
 
             writer.write_all(source.as_bytes())?;
+            writer.flush()?;
             generated_names.push(name);
         }
 
-- 
2.43.0


From 495e9665e8060865ce78911cf7102c94704683dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:42 +0000
Subject: [PATCH 29/29] fix: a borrowed reader starts with the byte its owner
 has looked ahead at

---
 steit/src/de/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index 8b76cbc..f43acc8 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -19,7 +19,7 @@ impl<R: io::Read> Reader<R> {
 
     pub fn as_mut_read(&mut self) -> Reader<&mut dyn io::Read> {
         Reader {
-            inner: Eof::new(self.inner.get_mut()),
+            inner: Eof::new(&mut self.inner),
         }
     }
 
-- 
2.43.0

