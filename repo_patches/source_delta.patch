From 6e16d1e10a3cefd7c8a0cf2df692b60af376a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 01/15] fix: QuotientFilter::remove of an item whose quotient
 has no run removes nothing

A slot that is only occupied by a shifted item of another run passed the
emptiness check, so the search started in a run of another quotient and could
remove another item.
---
 src/quotient.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 6a598c8..f1c1e9a 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -442,8 +442,8 @@ where
         let (quotient, remainder) =
             self.get_quotient_and_remainder(util::hash(&self.hash_builder, &item));
 
-        // empty slot
-        if self.slot_vec.get(quotient) & METADATA_MASK == 0 {
+        // no run for the quotient
+        if self.slot_vec.get(quotient) & OCCUPIED_MASK == 0 {
             return;
         }
 
-- 
2.43.0


From 696825588276eee850848382e03ee813b7db30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 02/15] fix: QuotientFilter::remove clears the occupied bit of
 a run it empties at the end of a cluster

The bit was only cleared when another run followed. A stale bit made later
lookups and inserts use the run of another quotient.
---
 src/quotient.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/quotient.rs b/src/quotient.rs
index f1c1e9a..73f2dfc 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -525,6 +525,13 @@ where
             next_slot = self.slot_vec.get(next_index);
         }
 
+        // removed item was the only item in its run and nothing was shifted left, so the occupied
+        // bit of its canonical position has not been deleted yet
+        if is_run_start {
+            let canonical_slot = self.slot_vec.get(quotient) & !OCCUPIED_MASK;
+            self.slot_vec.set(quotient, canonical_slot);
+        }
+
         self.len -= 1;
     }
 
-- 
2.43.0


From 01f32885b4dfdc6e3eb11353ff03af367709bfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 03/15] fix: CuckooFilter::capacity reports the number of
 entries, not the allocation of the table

Vec::capacity may exceed what was asked for, and does after deserialising, so
capacity() differed between a filter and its restored copy and was larger than
the number of entries that exist.
---
 src/cuckoo/cuckoo_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index 9d3545a..002450b 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -649,7 +649,7 @@ where
     /// assert_eq!(filter.capacity(), 128);
     /// ```
     pub fn capacity(&self) -> usize {
-        self.fingerprint_vec.capacity()
+        self.fingerprint_vec.len()
     }
 
     /// Returns the length of each bucket in the cuckoo filter.
-- 
2.43.0


From 9122375b35c6db824b32c1c4b79d377b81f67781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 04/15] fix: CuckooFilter::from_entries_per_index uses at most
 64 bits per fingerprint

For a very small false positive rate, as a ScalableCuckooFilter reaches after a
number of growth steps, the width became infinite and the insert that grew the
filter panicked.
---
 src/cuckoo/cuckoo_filter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index 002450b..c2ae396 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -321,7 +321,8 @@ where
         assert!(item_count > 0);
         assert!(entries_per_index > 0);
         let power = 2.0 / (1.0 - (1.0 - fpp).powf(1.0 / (2.0 * entries_per_index as f64)));
-        let fingerprint_bit_count = power.log2().ceil() as usize;
+        // for very small false positive rates, `power` can round to infinity
+        let fingerprint_bit_count = cmp::min(power.log2().ceil() as usize, 64);
         let exact_bucket_len = (item_count + entries_per_index - 1) / entries_per_index;
         let bucket_len = exact_bucket_len.next_power_of_two();
         CuckooFilter {
-- 
2.43.0


From f067d1689b598b509771645b2199fe362e777ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 05/15] fix: BloomFilter::from_fpp terminates for a false
 positive probability that underflows

ScalableBloomFilter multiplies the probability by the tightening ratio on every
growth; once it reached zero the new stage hashed every item usize::MAX times.
---
 src/bloom/bloom_filter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bloom/bloom_filter.rs b/src/bloom/bloom_filter.rs
index 066ff85..3ff67af 100644
--- a/src/bloom/bloom_filter.rs
+++ b/src/bloom/bloom_filter.rs
@@ -3,6 +3,7 @@ use crate::{DoubleHasher, SipHasherBuilder};
 #[cfg(feature = "serde")]
 use serde_crate::{Deserialize, Serialize};
 use std::borrow::Borrow;
+use std::cmp;
 use std::hash::{BuildHasher, Hash};
 use std::marker::PhantomData;
 
@@ -187,7 +188,12 @@ where
     /// );
     /// ```
     pub fn from_fpp_with_hashers(bit_count: usize, fpp: f64, hash_builders: [B; 2]) -> Self {
-        let item_count = -(2f64.ln() * (bit_count as f64) / fpp.log2()).floor() as usize;
+        // a false positive probability that rounds to zero would allow for no items and require an
+        // infinite number of hashes
+        let item_count = cmp::max(
+            -(2f64.ln() * (bit_count as f64) / fpp.log2()).floor() as usize,
+            1,
+        );
         BloomFilter {
             bit_vec: BitVec::new(bit_count),
             hasher: DoubleHasher::with_hashers(hash_builders),
-- 
2.43.0


From 5506a961e10ca9973a866a2be4996153e11b4204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 06/15] fix: HyperLogLog::len is finite and follows the
 harmonic mean of the registers

The raw estimate was inverted, so it never exceeded the linear counting
threshold and len() was infinite as soon as no register was zero.  The large
range correction is for 32-bit hashes and gave NaN.
---
 src/hyperloglog.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index eece6a9..48ea3ab 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -20,7 +20,7 @@ use std::marker::PhantomData;
 /// distributed items can be estimated by calculating the maximum number of leading zeros in the
 /// hash of each item in the multiset. It also buckets each item in a register and takes the
 /// harmonic mean of the count in order to reduce the variance. Finally, it uses linear counting
-/// for small cardinalities and small correction for large cardinalities.
+/// for small cardinalities.
 ///
 /// # Examples
 ///
@@ -176,14 +176,12 @@ where
 
     fn get_estimate(&self) -> f64 {
         let len = self.registers.len() as f64;
-        1.0 / (self.alpha
-            * len
-            * len
-            * self
+        self.alpha * len * len
+            / self
                 .registers
                 .iter()
                 .map(|value| 1.0 / 2.0f64.powi(i32::from(*value)))
-                .sum::<f64>())
+                .sum::<f64>()
     }
 
     /// Returns the estimated number of distinct items in the `HyperLogLog<T>`.
@@ -202,17 +200,15 @@ where
     /// ```
     pub fn len(&self) -> f64 {
         let len = self.registers.len() as f64;
+        let zeros = self
+            .registers
+            .iter()
+            .map(|value| u64::from(*value == 0))
+            .sum::<u64>();
         match self.get_estimate() {
-            x if x <= 2.5 * len => {
-                let zeros = self
-                    .registers
-                    .iter()
-                    .map(|value| u64::from(*value == 0))
-                    .sum::<u64>();
-                len * (len / zeros as f64).ln()
-            }
-            x if x <= 1.0 / 3.0 * 2.0f64.powi(32) => x,
-            x => -(2.0f64.powi(32)) * (1.0 - x / 2.0f64.powi(32)).ln(),
+            x if x <= 2.5 * len && zeros > 0 => len * (len / zeros as f64).ln(),
+            // Hashes are 64 bits wide, so no correction for collisions is needed.
+            x => x,
         }
     }
 
-- 
2.43.0


From 13e10b6ebcf86065cdca395bdfb6120d06158a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 07/15] fix: HyperLogLog uses enough registers for the
 configured error probability

The number of register index bits is the binary logarithm of
(1.04 / error_probability)^2; the natural logarithm left the error several
times above the configured one.  Every error probability accepted before is
still accepted.
---
 src/hyperloglog.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index 48ea3ab..3c762f3 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -77,7 +77,7 @@ where
     B: BuildHasher,
 {
     fn get_alpha(p: usize) -> f64 {
-        assert!((..=16).contains(&p));
+        assert!((..=24).contains(&p));
         match p {
             4 => 0.673,
             5 => 0.697,
@@ -102,7 +102,7 @@ where
     /// ```
     pub fn with_hasher(error_probability: f64, hash_builder: B) -> Self {
         assert!(0.0 < error_probability && error_probability < 1.0);
-        let p = (1.04 / error_probability).powi(2).ln().ceil() as usize;
+        let p = (1.04 / error_probability).powi(2).log2().ceil() as usize;
         let alpha = Self::get_alpha(p);
         let registers_len = 1 << p;
         HyperLogLog {
-- 
2.43.0


From ef3cc577ca03d2b43f24d2decec83b615f0bbd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 08/15] fix: CountMinSketch::insert counts the item only after
 hashing it

A panic in the item's Hash left the total changed, and with it the answers of
the median bias strategy.
---
 src/count_min_sketch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/count_min_sketch.rs b/src/count_min_sketch.rs
index 7787659..64b091e 100644
--- a/src/count_min_sketch.rs
+++ b/src/count_min_sketch.rs
@@ -237,11 +237,11 @@ where
         U: Borrow<V>,
         V: Hash + ?Sized,
     {
-        self.items += value;
         for (row, hash) in self.hasher.hash(item).take(self.rows).enumerate() {
             let offset = hash % self.cols as u64;
             self.grid[row * self.cols + offset as usize] += value;
         }
+        self.items += value;
     }
 
     /// Removes an element from the count-min sketch `value` times.
-- 
2.43.0


From a5fffa8aab1f3d82eccd9da57bd07dab8e13de1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 09/15] fix: ScalableCuckooFilter::remove hashes the item for
 every stage before removing it

A panic in the item's Hash after the first stage left it removed from some
stages only.
---
 src/cuckoo/cuckoo_filter.rs          |  6 +++---
 src/cuckoo/scalable_cuckoo_filter.rs | 10 ++++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index c2ae396..8a0d313 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -11,7 +11,7 @@ use std::cmp;
 use std::hash::{BuildHasher, Hash};
 use std::marker::PhantomData;
 
-struct FingerprintAndIndexes {
+pub(super) struct FingerprintAndIndexes {
     fingerprint: u64,
     index_1: usize,
     index_2: usize,
@@ -397,7 +397,7 @@ where
         index * self.entries_per_index + bucket_index
     }
 
-    fn get_fingerprint_and_indexes<U>(&self, item: &U) -> FingerprintAndIndexes
+    pub(super) fn get_fingerprint_and_indexes<U>(&self, item: &U) -> FingerprintAndIndexes
     where
         T: Borrow<U>,
         U: Hash + ?Sized,
@@ -517,7 +517,7 @@ where
         self.remove_fingerprint(&self.get_fingerprint_and_indexes(item));
     }
 
-    fn remove_fingerprint(&mut self, fingerprint_and_indexes: &FingerprintAndIndexes) {
+    pub(super) fn remove_fingerprint(&mut self, fingerprint_and_indexes: &FingerprintAndIndexes) {
         let FingerprintAndIndexes {
             fingerprint,
             index_1,
diff --git a/src/cuckoo/scalable_cuckoo_filter.rs b/src/cuckoo/scalable_cuckoo_filter.rs
index bd50222..6986777 100644
--- a/src/cuckoo/scalable_cuckoo_filter.rs
+++ b/src/cuckoo/scalable_cuckoo_filter.rs
@@ -306,8 +306,14 @@ where
         T: Borrow<U>,
         U: Hash + ?Sized,
     {
-        for filter in &mut self.filters {
-            filter.remove(item);
+        // Hash the item for every filter before changing any of them.
+        let fingerprints: Vec<_> = self
+            .filters
+            .iter()
+            .map(|filter| filter.get_fingerprint_and_indexes(item))
+            .collect();
+        for (filter, fingerprint) in self.filters.iter_mut().zip(&fingerprints) {
+            filter.remove_fingerprint(fingerprint);
         }
     }
 
-- 
2.43.0


From 4fb462d30f15cbf39b80fa3cfafb3c85e3fb4cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 10/15] fix: SimHash::report_similarities accepts fewer
 documents than the window size

---
 src/similarity/sim_hash.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/similarity/sim_hash.rs b/src/similarity/sim_hash.rs
index dff83fb..39947b2 100644
--- a/src/similarity/sim_hash.rs
+++ b/src/similarity/sim_hash.rs
@@ -165,9 +165,10 @@ where
 
         for _ in 0..64 {
             sim_hashes.sort();
-            for i in 0..=sim_hashes.len() - window_size {
-                for j in i..i + window_size {
-                    for k in j + 1..i + window_size {
+            for i in 0..=sim_hashes.len().saturating_sub(window_size) {
+                let window_end = cmp::min(i + window_size, sim_hashes.len());
+                for j in i..window_end {
+                    for k in j + 1..window_end {
                         similarities.insert((
                             cmp::min(sim_hashes[j].1, sim_hashes[k].1),
                             cmp::max(sim_hashes[j].1, sim_hashes[k].1),
-- 
2.43.0


From 75784b201b4befa2d6993d5d8645474758faa6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 11/15] fix: QuotientFilter::from_fpp panicked for valid false
 positive probabilities above 0.39

---
 src/quotient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 73f2dfc..3d52b3c 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -268,7 +268,7 @@ where
     /// ```
     pub fn from_fpp_with_hasher(capacity: usize, fpp: f64, hash_builder: B) -> Self {
         let quotient_bits = (capacity as f64 * 1.33).log2().ceil() as u8;
-        let remainder_bits = (1.0 / -2.0 / (1.0 - fpp).ln()).log2().ceil() as u8;
+        let remainder_bits = (1.0 / -2.0 / (1.0 - fpp).ln()).log2().ceil().max(1.0) as u8;
         Self::with_hasher(quotient_bits, remainder_bits, hash_builder)
     }
 
-- 
2.43.0


From d45125a578dfdbefce7a648c937316659aab8452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 12/15] fix: QuotientFilter::from_fpp sized remainders for half
 of the ideal fullness, exceeding the given probability

---
 src/quotient.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 3d52b3c..fd7ac86 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -268,7 +268,8 @@ where
     /// ```
     pub fn from_fpp_with_hasher(capacity: usize, fpp: f64, hash_builder: B) -> Self {
         let quotient_bits = (capacity as f64 * 1.33).log2().ceil() as u8;
-        let remainder_bits = (1.0 / -2.0 / (1.0 - fpp).ln()).log2().ceil().max(1.0) as u8;
+        // `capacity` items fill at most `1 / 1.33` of the slots
+        let remainder_bits = (-1.0 / 1.33 / (1.0 - fpp).ln()).log2().ceil().max(1.0) as u8;
         Self::with_hasher(quotient_bits, remainder_bits, hash_builder)
     }
 
-- 
2.43.0


From 9106a873727262a4d5ed13891bf89cc7d5fe0b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:04 +0000
Subject: [PATCH 13/15] fix: CountMeanStrategy: exact mean of large counts

The sum of the rows was computed in an i64, which overflows for counts above
i64::MAX / rows, and divided as f64, which loses precision above 2^53: the
estimate of an item could be less than its count.
---
 src/count_min_sketch.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/count_min_sketch.rs b/src/count_min_sketch.rs
index 64b091e..a4ec8c2 100644
--- a/src/count_min_sketch.rs
+++ b/src/count_min_sketch.rs
@@ -33,7 +33,10 @@ pub struct CountMeanStrategy;
 
 impl CountStrategy for CountMeanStrategy {
     fn get_estimate(_items: i64, rows: usize, _cols: usize, iter: ItemValueIter<'_>) -> i64 {
-        (iter.sum::<i64>() as f64 / rows as f64).round() as i64
+        // Exact, as neither the sum nor its quotient necessarily fit into an `i64` or a `f64`.
+        let rows = usize::max(rows, 1) as i128;
+        let sum = iter.map(i128::from).sum::<i128>();
+        ((2 * sum + sum.signum() * rows) / (2 * rows)) as i64
     }
 }
 
-- 
2.43.0


From 35d5325eeb9314d4e1488137238b39a595707e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:24 +0000
Subject: [PATCH 14/15] fix: ShingleIterator: no shingles from fewer tokens
 than a shingle holds

next() subtracted the shingle size from the number of tokens, which underflows:
a panic in debug builds, an out-of-range slice in release builds.
---
 src/similarity/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/similarity/mod.rs b/src/similarity/mod.rs
index 9976323..1e60902 100644
--- a/src/similarity/mod.rs
+++ b/src/similarity/mod.rs
@@ -65,7 +65,7 @@ where
     type Item = Vec<&'a T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.index > self.tokens.len() - self.token_count {
+        if self.index + self.token_count > self.tokens.len() {
             return None;
         }
         self.index += 1;
-- 
2.43.0


From d511fad0fdd0d27a9deec6a39f9befef88a540d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:13 +0000
Subject: [PATCH 15/15] fix: allocate one slot per quotient in QuotientFilter

BitstringVec::new takes a number of elements, but was given their size in
bits, so a filter held slot_bits (up to 64) times the memory it needs.
---
 src/quotient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index fd7ac86..a44c87e 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -232,7 +232,7 @@ where
         assert!(remainder_bits > 0);
         assert!(quotient_bits + remainder_bits <= 64);
         let slot_bits = remainder_bits + METADATA_BITS;
-        let slot_vec_len = u64::from(slot_bits) * (1u64 << quotient_bits);
+        let slot_vec_len = 1u64 << quotient_bits;
         QuotientFilter {
             quotient_bits,
             remainder_bits,
-- 
2.43.0

