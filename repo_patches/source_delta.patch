From b2775e2b54b1d13d8f3af30139788ea5097e20a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 01/11] hook: solver-friendly HashMap stand-in, compiled under
 cfg(kani) only

---
 src/lib.rs                        |   3 +
 src/tags/mod.rs                   |   3 +
 src/tags/standard/explicit/mod.rs |   3 +
 src/verif_map.rs                  | 444 ++++++++++++++++++++++++++++++
 4 files changed, 453 insertions(+)
 create mode 100644 src/verif_map.rs

diff --git a/src/lib.rs b/src/lib.rs
index 080ec7b..8a88753 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -56,5 +56,8 @@
 pub mod ilint;
 pub mod io;
 pub mod tags;
+#[cfg(kani)]
+#[doc(hidden)]
+pub mod verif_map;
 #[cfg(test)]
 mod tests;
diff --git a/src/tags/mod.rs b/src/tags/mod.rs
index 58d116c..8908e56 100644
--- a/src/tags/mod.rs
+++ b/src/tags/mod.rs
@@ -72,6 +72,9 @@ mod tests;
 use crate::ilint::encoded_size;
 use crate::io::{Reader, Writer};
 use ::std::any::Any;
+#[cfg(kani)]
+use crate::verif_map::HashMap;
+#[cfg(not(kani))]
 use ::std::collections::HashMap;
 use serialization::*;
 pub use serialization::{
diff --git a/src/tags/standard/explicit/mod.rs b/src/tags/standard/explicit/mod.rs
index ce92b0a..c3101ce 100644
--- a/src/tags/standard/explicit/mod.rs
+++ b/src/tags/standard/explicit/mod.rs
@@ -41,6 +41,9 @@ use crate::tags::serialization::*;
 use crate::tags::util::limited_reader_ensure_empty;
 use crate::tags::{tag_size_to_usize, ILRawTag};
 use ::std::any::Any;
+#[cfg(kani)]
+use crate::verif_map::HashMap;
+#[cfg(not(kani))]
 use ::std::collections::HashMap;
 
 /// This macro defines the methods for tags that uses an ILRawTag as
diff --git a/src/verif_map.rs b/src/verif_map.rs
new file mode 100644
index 0000000..667a6c9
--- /dev/null
+++ b/src/verif_map.rs
@@ -0,0 +1,444 @@
+//! Verification-only stand-in for [`std::collections::HashMap`].
+//!
+//! This module only exists when the crate is compiled by the Kani model checker
+//! (`cfg(kani)`); it is never part of a regular build. The real hash map cannot
+//! be executed symbolically (SipHash and SIMD probing), so it is replaced by an
+//! association list with the same observable contract: unique keys and an
+//! unspecified iteration order that does not change while the map is not
+//! modified. The order is controlled by [`set_order_seed`]: a symbolic seed
+//! explores all iteration orders of maps with up to 8 entries.
+use std::borrow::Borrow;
+use std::hash::Hash;
+
+static mut ORDER_SEED: u64 = 0;
+
+/// Sets the seed of the iteration order. Each new entry consumes 3 bits of it,
+/// that tell how many positions before the end the entry is placed. Seed 0 keeps
+/// the insertion order.
+pub fn set_order_seed(seed: u64) {
+    unsafe { ORDER_SEED = seed }
+}
+
+fn insertion_position(len: usize) -> usize {
+    let back = unsafe {
+        let back = (ORDER_SEED & 7) as usize;
+        ORDER_SEED >>= 3;
+        back
+    };
+    if back > len {
+        0
+    } else {
+        len - back
+    }
+}
+
+/// Number of entries stored inline (outside of the heap).
+const INLINE: usize = 28;
+
+/// Association list. The first entries are stored inline because the model
+/// checker handles them far better than heap memory.
+struct Entries<K, V> {
+    inline: [Option<(K, V)>; INLINE],
+    inline_len: usize,
+    spill: Vec<(K, V)>,
+}
+
+impl<K, V> Entries<K, V> {
+    fn new() -> Self {
+        Self {
+            inline: [const { None }; INLINE],
+            inline_len: 0,
+            spill: Vec::new(),
+        }
+    }
+
+    fn len(&self) -> usize {
+        self.inline_len + self.spill.len()
+    }
+
+    fn get(&self, i: usize) -> Option<&(K, V)> {
+        if i < self.inline_len {
+            self.inline[i].as_ref()
+        } else {
+            self.spill.get(i - self.inline_len)
+        }
+    }
+
+    fn get_mut(&mut self, i: usize) -> Option<&mut (K, V)> {
+        if i < self.inline_len {
+            self.inline[i].as_mut()
+        } else {
+            self.spill.get_mut(i - self.inline_len)
+        }
+    }
+
+    fn insert(&mut self, pos: usize, e: (K, V)) {
+        if self.inline_len < INLINE {
+            let mut i = self.inline_len;
+            while i > pos {
+                self.inline[i] = self.inline[i - 1].take();
+                i -= 1;
+            }
+            self.inline[pos] = Some(e);
+            self.inline_len += 1;
+        } else {
+            // The symbolic order is limited to the inline entries.
+            self.spill.push(e);
+        }
+    }
+
+    fn remove(&mut self, i: usize) -> (K, V) {
+        if i < self.inline_len {
+            let ret = self.inline[i].take().unwrap();
+            let mut j = i + 1;
+            while j < self.inline_len {
+                self.inline[j - 1] = self.inline[j].take();
+                j += 1;
+            }
+            self.inline_len -= 1;
+            ret
+        } else {
+            self.spill.remove(i - self.inline_len)
+        }
+    }
+
+    fn clear(&mut self) {
+        let mut i = 0;
+        while i < self.inline_len {
+            self.inline[i] = None;
+            i += 1;
+        }
+        self.inline_len = 0;
+        self.spill.clear();
+    }
+}
+
+pub struct HashMap<K, V> {
+    entries: Entries<K, V>,
+}
+
+/// Iterator over the entries of a [`HashMap`].
+pub struct Iter<'a, K, V> {
+    entries: &'a Entries<K, V>,
+    next: usize,
+}
+
+impl<'a, K, V> Clone for Iter<'a, K, V> {
+    fn clone(&self) -> Self {
+        Self {
+            entries: self.entries,
+            next: self.next,
+        }
+    }
+}
+
+impl<'a, K, V> Iterator for Iter<'a, K, V> {
+    type Item = (&'a K, &'a V);
+
+    fn next(&mut self) -> Option<Self::Item> {
+        if self.next < self.entries.len() {
+            let e = self.entries.get(self.next);
+            self.next += 1;
+            e.map(|e| (&e.0, &e.1))
+        } else {
+            None
+        }
+    }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let n = self.entries.len() - self.next;
+        (n, Some(n))
+    }
+}
+
+impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
+
+impl<K, V> HashMap<K, V> {
+    pub fn new() -> Self {
+        Self {
+            entries: Entries::new(),
+        }
+    }
+
+    pub fn with_capacity(_capacity: usize) -> Self {
+        Self::new()
+    }
+
+    pub fn len(&self) -> usize {
+        self.entries.len()
+    }
+
+    pub fn is_empty(&self) -> bool {
+        self.entries.len() == 0
+    }
+
+    pub fn capacity(&self) -> usize {
+        self.entries.len()
+    }
+
+    pub fn reserve(&mut self, _additional: usize) {}
+
+    pub fn shrink_to_fit(&mut self) {}
+
+    pub fn clear(&mut self) {
+        self.entries.clear();
+    }
+
+    pub fn iter(&self) -> Iter<'_, K, V> {
+        Iter {
+            entries: &self.entries,
+            next: 0,
+        }
+    }
+
+    pub fn keys(&self) -> impl Iterator<Item = &K> + ExactSizeIterator + Clone + '_ {
+        self.iter().map(|e| e.0)
+    }
+
+    pub fn values(&self) -> impl Iterator<Item = &V> + ExactSizeIterator + Clone + '_ {
+        self.iter().map(|e| e.1)
+    }
+
+    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> + '_ {
+        self.entries
+            .inline
+            .iter_mut()
+            .flatten()
+            .chain(self.entries.spill.iter_mut())
+            .map(|e| (&e.0, &mut e.1))
+    }
+
+    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> + '_ {
+        self.iter_mut().map(|e| e.1)
+    }
+
+    pub fn drain(&mut self) -> impl Iterator<Item = (K, V)> {
+        std::mem::take(self).into_iter()
+    }
+
+    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
+        let mut i = 0;
+        while i < self.entries.len() {
+            let keep = match self.entries.get_mut(i) {
+                Some(e) => f(&e.0, &mut e.1),
+                None => true,
+            };
+            if keep {
+                i += 1;
+            } else {
+                self.entries.remove(i);
+            }
+        }
+    }
+}
+
+impl<K: Eq + Hash, V> HashMap<K, V> {
+    fn position<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<usize>
+    where
+        K: Borrow<Q>,
+    {
+        let mut i = 0;
+        while i < self.entries.len() {
+            match self.entries.get(i) {
+                Some(e) if e.0.borrow() == k => return Some(i),
+                _ => (),
+            }
+            i += 1;
+        }
+        None
+    }
+
+    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
+        match self.position(&k) {
+            Some(i) => self
+                .entries
+                .get_mut(i)
+                .map(|e| std::mem::replace(&mut e.1, v)),
+            None => {
+                let pos = insertion_position(self.entries.len());
+                self.entries.insert(pos, (k, v));
+                None
+            }
+        }
+    }
+
+    pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&V>
+    where
+        K: Borrow<Q>,
+    {
+        self.get_key_value(k).map(|e| e.1)
+    }
+
+    pub fn get_key_value<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<(&K, &V)>
+    where
+        K: Borrow<Q>,
+    {
+        match self.position(k) {
+            Some(i) => self.entries.get(i).map(|e| (&e.0, &e.1)),
+            None => None,
+        }
+    }
+
+    pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<&mut V>
+    where
+        K: Borrow<Q>,
+    {
+        match self.position(k) {
+            Some(i) => self.entries.get_mut(i).map(|e| &mut e.1),
+            None => None,
+        }
+    }
+
+    pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool
+    where
+        K: Borrow<Q>,
+    {
+        self.position(k).is_some()
+    }
+
+    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<V>
+    where
+        K: Borrow<Q>,
+    {
+        self.remove_entry(k).map(|e| e.1)
+    }
+
+    pub fn remove_entry<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<(K, V)>
+    where
+        K: Borrow<Q>,
+    {
+        self.position(k).map(|i| self.entries.remove(i))
+    }
+
+    pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
+        match self.position(&key) {
+            Some(index) => Entry::Occupied(OccupiedEntry { map: self, index }),
+            None => Entry::Vacant(VacantEntry { map: self, key }),
+        }
+    }
+}
+
+/// Stand-in for [`std::collections::hash_map::Entry`].
+pub enum Entry<'a, K, V> {
+    Occupied(OccupiedEntry<'a, K, V>),
+    Vacant(VacantEntry<'a, K, V>),
+}
+
+/// Stand-in for [`std::collections::hash_map::OccupiedEntry`].
+pub struct OccupiedEntry<'a, K, V> {
+    map: &'a mut HashMap<K, V>,
+    index: usize,
+}
+
+/// Stand-in for [`std::collections::hash_map::VacantEntry`].
+pub struct VacantEntry<'a, K, V> {
+    map: &'a mut HashMap<K, V>,
+    key: K,
+}
+
+impl<'a, K, V> OccupiedEntry<'a, K, V> {
+    pub fn key(&self) -> &K {
+        &self.map.entries.get(self.index).unwrap().0
+    }
+
+    pub fn get(&self) -> &V {
+        &self.map.entries.get(self.index).unwrap().1
+    }
+
+    pub fn get_mut(&mut self) -> &mut V {
+        &mut self.map.entries.get_mut(self.index).unwrap().1
+    }
+
+    pub fn into_mut(self) -> &'a mut V {
+        &mut self.map.entries.get_mut(self.index).unwrap().1
+    }
+
+    pub fn insert(&mut self, v: V) -> V {
+        std::mem::replace(self.get_mut(), v)
+    }
+
+    pub fn remove(self) -> V {
+        self.map.entries.remove(self.index).1
+    }
+}
+
+impl<'a, K: Eq + Hash, V> VacantEntry<'a, K, V> {
+    pub fn key(&self) -> &K {
+        &self.key
+    }
+
+    pub fn insert(self, v: V) -> &'a mut V {
+        let pos = insertion_position(self.map.entries.len());
+        self.map.entries.insert(pos, (self.key, v));
+        &mut self.map.entries.get_mut(pos).unwrap().1
+    }
+}
+
+impl<'a, K: Eq + Hash, V> Entry<'a, K, V> {
+    pub fn or_insert(self, v: V) -> &'a mut V {
+        match self {
+            Entry::Occupied(e) => e.into_mut(),
+            Entry::Vacant(e) => e.insert(v),
+        }
+    }
+
+    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
+        match self {
+            Entry::Occupied(e) => e.into_mut(),
+            Entry::Vacant(e) => e.insert(f()),
+        }
+    }
+}
+
+impl<K, V> Default for HashMap<K, V> {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
+impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> {
+    fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, iter: T) {
+        for (k, v) in iter {
+            self.insert(k, v);
+        }
+    }
+}
+
+impl<K: Eq + Hash, V> std::iter::FromIterator<(K, V)> for HashMap<K, V> {
+    fn from_iter<T: IntoIterator<Item = (K, V)>>(iter: T) -> Self {
+        let mut map = Self::new();
+        map.extend(iter);
+        map
+    }
+}
+
+impl<K, V> IntoIterator for HashMap<K, V> {
+    type Item = (K, V);
+    type IntoIter = std::iter::Chain<
+        std::iter::Flatten<std::array::IntoIter<Option<(K, V)>, INLINE>>,
+        std::vec::IntoIter<(K, V)>,
+    >;
+
+    fn into_iter(self) -> Self::IntoIter {
+        IntoIterator::into_iter(self.entries.inline)
+            .flatten()
+            .chain(self.entries.spill)
+    }
+}
+
+impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
+    type Item = (&'a K, &'a V);
+    type IntoIter = Iter<'a, K, V>;
+
+    fn into_iter(self) -> Self::IntoIter {
+        self.iter()
+    }
+}
+
+impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V> std::ops::Index<&Q> for HashMap<K, V> {
+    type Output = V;
+
+    fn index(&self, k: &Q) -> &V {
+        self.get(k).expect("no entry found for key")
+    }
+}
-- 
2.43.0


From 4cb5c4064f1618697bdcc82132b3563940978be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 02/11] fix: BorrowedVecWriter::bytes_written underflow when
 positioned before the initial offset

---
 src/io/array/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/array/mod.rs b/src/io/array/mod.rs
index dfb734f..9b21170 100644
--- a/src/io/array/mod.rs
+++ b/src/io/array/mod.rs
@@ -446,7 +446,7 @@ impl<'a> BorrowedVecWriter<'a> {
 
     /// Returns the number of bytes actually written.
     pub fn bytes_written(&self) -> usize {
-        self.offset - self.initial_offset
+        self.offset.saturating_sub(self.initial_offset)
     }
 }
 
-- 
2.43.0


From eeff62f54dc212ad0a6565e821310af1a578228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 03/11] fix: LimitedReader::skip consumed data before failing
 when skipping past its limit

---
 src/io/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io/mod.rs b/src/io/mod.rs
index 2c19e58..1445ff1 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -293,4 +293,13 @@ impl<'a> Reader for LimitedReader<'a> {
         }
         ret
     }
+
+    fn skip(&mut self, count: usize) -> Result<()> {
+        self.can_read(count)?;
+        let ret = self.source.skip(count);
+        if ret.is_ok() {
+            self.available -= count;
+        }
+        ret
+    }
 }
-- 
2.43.0


From 23f8701b4d19a7aa1a2f512f98233f7e19f558de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 04/11] fix: skip on seekable streams could overflow and lost
 the position on failure

---
 src/io/std_io/mod.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index f853b52..4babeb4 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -194,25 +194,23 @@ where
         } else {
             let curr_pos = self.seek(std::io::SeekFrom::Current(0))?;
             let end_pos = self.seek(std::io::SeekFrom::End(0))?;
-            if curr_pos == end_pos {
-                Err(ErrorKind::EndOfData)
+            let error = if curr_pos == end_pos {
+                ErrorKind::EndOfData
             } else {
-                let new_pos = curr_pos + count;
-                if new_pos <= end_pos {
-                    self.seek(std::io::SeekFrom::Start(new_pos))?;
-                    Ok(())
-                } else {
-                    Err(ErrorKind::UnableToReadData)
+                match curr_pos.checked_add(count) {
+                    Some(new_pos) if new_pos <= end_pos => {
+                        self.seek(std::io::SeekFrom::Start(new_pos))?;
+                        return Ok(());
+                    }
+                    _ => ErrorKind::UnableToReadData,
                 }
-            }
+            };
+            self.seek(std::io::SeekFrom::Start(curr_pos))?;
+            Err(error)
         }
     }
 }
 
-//=============================================================================
-// Writer for std::io::Write + std::io::Seek
-//-----------------------------------------------------------------------------
-// New since 1.4.0.
 impl<T> Writer for T
 where
     T: std::io::Write + std::io::Seek,
-- 
2.43.0


From 050df1d8f60458aa48d5583749eac81e90f37583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 05/11] fix: SizedSeek::available underflow when positioned
 after the end

---
 src/io/std_io/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index 4babeb4..cf61bac 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -66,7 +66,7 @@ pub trait SizedSeek {
     fn offset(&mut self) -> Result<u64>;
     /// Returns the number of bytes available for reading.
     fn available(&mut self) -> Result<u64> {
-        Ok(self.len()? - self.offset()?)
+        Ok(self.len()?.saturating_sub(self.offset()?))
     }
 }
 
-- 
2.43.0


From 339c52be00ca35a633c7d5035f0af51247e23b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 06/11] fix: WriteWriter failed on short or interrupted writes
 after writing part of the data

---
 src/io/std_io/mod.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index cf61bac..5021d25 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -143,17 +143,12 @@ impl<'a> WriteWriter<'a> {
 impl<'a> Writer for WriteWriter<'a> {
     fn write(&mut self, value: u8) -> Result<()> {
         let tmp: [u8; 1] = [value];
-        match self.dest.write(&tmp) {
-            Ok(1) => Ok(()),
-            Ok(_) => Err(ErrorKind::UnableToWriteData),
-            Err(e) => Err(ErrorKind::IOError(e)),
-        }
+        Writer::write_all(self, &tmp)
     }
 
     fn write_all(&mut self, buff: &[u8]) -> Result<()> {
-        match self.dest.write(&buff) {
-            Ok(n) if n == buff.len() => Ok(()),
-            Ok(_) => Err(ErrorKind::UnableToWriteData),
+        match self.dest.write_all(buff) {
+            Ok(()) => Ok(()),
             Err(e) => Err(ErrorKind::IOError(e)),
         }
     }
-- 
2.43.0


From 1bdd690ad4d91eb3a3efcbf19a66e1a2a85095b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:24 +0000
Subject: [PATCH 07/11] fix: RawTagScanner overflowed on tags whose extent is
 not representable

---
 src/tags/raw/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tags/raw/mod.rs b/src/tags/raw/mod.rs
index 2769d90..9b49651 100644
--- a/src/tags/raw/mod.rs
+++ b/src/tags/raw/mod.rs
@@ -227,8 +227,12 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
         let value_size: u64 = size_info.1;
         let bytes_to_skip: u64 = size_info.2;
         let offset = self.offset;
-        self.offset += header_size + value_size;
+        let next_offset = header_size
+            .checked_add(value_size)
+            .and_then(|size| offset.checked_add(size))
+            .ok_or(ErrorKind::CorruptedData)?;
         self.reader.skip_u64(bytes_to_skip)?;
+        self.offset = next_offset;
         Ok(Some(RawTagOffset {
             id,
             offset,
-- 
2.43.0


From 35539429c0b6c625d0ec3b958c556f5a32f003cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 08/11] fix: RawTagScanner computed wrong extents for
 non-minimal ILInt headers

---
 src/tags/raw/mod.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/tags/raw/mod.rs b/src/tags/raw/mod.rs
index 9b49651..7d70307 100644
--- a/src/tags/raw/mod.rs
+++ b/src/tags/raw/mod.rs
@@ -41,7 +41,6 @@
 #[cfg(test)]
 mod tests;
 use crate::io::Reader;
-use crate::tags::serialization::*;
 use crate::tags::standard::constants::*;
 use crate::tags::{is_implicit_tag, ErrorKind, Result};
 
@@ -221,9 +220,9 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
 
     /// Returns the information about the next tag.
     pub fn next_tag(&mut self) -> Result<Option<RawTagOffset>> {
-        let id: u64 = self.reader.deserialize_ilint()?;
+        let (id, id_size) = self.read_ilint()?;
         let size_info = self.extract_tag_size(id)?;
-        let header_size: u64 = crate::ilint::encoded_size(id) as u64 + size_info.0;
+        let header_size: u64 = id_size + size_info.0;
         let value_size: u64 = size_info.1;
         let bytes_to_skip: u64 = size_info.2;
         let offset = self.offset;
@@ -276,15 +275,30 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
                 }
             }
         } else {
-            let value_size = self.reader.deserialize_ilint()?;
-            (
-                crate::ilint::encoded_size(value_size) as u64,
-                value_size,
-                value_size,
-            )
+            let (value_size, size_size) = self.read_ilint()?;
+            (size_size, value_size, value_size)
         })
     }
 
+    /// Reads an ILInt. The decoder accepts encodings that are longer than the
+    /// shortest one, thus the number of bytes used must come from the encoding.
+    ///
+    /// Returns (u64, u64) where:
+    /// - 0: The value;
+    /// - 1: Number of bytes read;
+    fn read_ilint(&mut self) -> Result<(u64, u64)> {
+        let mut tmp: [u8; 9] = [0; 9];
+        tmp[0] = self.reader.read()?;
+        let size = crate::ilint::decoded_size(tmp[0]);
+        if size > 1 {
+            self.reader.read_all(&mut tmp[1..size])?;
+        }
+        match crate::ilint::decode_from_bytes(&tmp[..size]) {
+            Ok((value, _)) => Ok((value, size as u64)),
+            Err(_) => Err(crate::io::ErrorKind::CorruptedData.into()),
+        }
+    }
+
     /// Extracts the size of an implicit ILInt tag from the reader.
     ///
     /// Returns (u64, u64, u64) where:
-- 
2.43.0


From 61ae2462b7fd621730e73b4d8d9d902575369d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 09/11] hook: unrolled lookup in the verification-only map

---
 src/verif_map.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/verif_map.rs b/src/verif_map.rs
index 667a6c9..3b45f63 100644
--- a/src/verif_map.rs
+++ b/src/verif_map.rs
@@ -237,7 +237,19 @@ impl<K: Eq + Hash, V> HashMap<K, V> {
     where
         K: Borrow<Q>,
     {
-        let mut i = 0;
+        // No loop here: the size of a map must not take part in the choice of the
+        // unwinding bound.
+        macro_rules! probe {
+            ($($i:literal)*) => {$(
+                match self.entries.get($i) {
+                    Some(e) if e.0.borrow() == k => return Some($i),
+                    Some(_) => (),
+                    None => return None,
+                }
+            )*};
+        }
+        probe!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27);
+        let mut i = INLINE;
         while i < self.entries.len() {
             match self.entries.get(i) {
                 Some(e) if e.0.borrow() == k => return Some(i),
-- 
2.43.0


From 1c9c933cb92fc0bc189021811c1ad69c71523165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:39 +0000
Subject: [PATCH 10/11] hook: insertion of new keys in verif_map

---
 src/verif_map.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/verif_map.rs b/src/verif_map.rs
index 3b45f63..5da2923 100644
--- a/src/verif_map.rs
+++ b/src/verif_map.rs
@@ -260,6 +260,12 @@ impl<K: Eq + Hash, V> HashMap<K, V> {
         None
     }
 
+    /// Inserts a key that is known to be new, without a lookup.
+    pub fn insert_new(&mut self, k: K, v: V) {
+        let pos = insertion_position(self.entries.len());
+        self.entries.insert(pos, (k, v));
+    }
+
     pub fn insert(&mut self, k: K, v: V) -> Option<V> {
         match self.position(&k) {
             Some(i) => self
-- 
2.43.0


From 4e586d65666a063b39939df927ce4e4b277d615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:57 +0000
Subject: [PATCH 11/11] hook: unrolled access in verif_map

---
 src/verif_map.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/verif_map.rs b/src/verif_map.rs
index 5da2923..68cdf66 100644
--- a/src/verif_map.rs
+++ b/src/verif_map.rs
@@ -291,6 +291,16 @@ impl<K: Eq + Hash, V> HashMap<K, V> {
     where
         K: Borrow<Q>,
     {
+        macro_rules! probe {
+            ($($i:literal)*) => {$(
+                match self.entries.get($i) {
+                    Some(e) if e.0.borrow() == k => return Some((&e.0, &e.1)),
+                    Some(_) => (),
+                    None => return None,
+                }
+            )*};
+        }
+        probe!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27);
         match self.position(k) {
             Some(i) => self.entries.get(i).map(|e| (&e.0, &e.1)),
             None => None,
-- 
2.43.0

