From 36a439bf69ba872d89f62e3de6f220d64d1c1647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 01/20] fix: histogram store without any bin must still hand
 out histograms

Training on data whose columns all have a single value (no useful feature) panicked in
SliceStore::alloc_slice (len > 0).
---
 src/slice_store.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/slice_store.rs b/src/slice_store.rs
index 0be79c9..6e4f5d4 100644
--- a/src/slice_store.rs
+++ b/src/slice_store.rs
@@ -275,9 +275,9 @@ where T: Clone + Default {
         let (llo, _) = left_range;
         let (rlo, _) = right_range;
 
-        let buffer = self.slice_store.buffer_mut();
+        debug_assert_eq!(phi-plo, self.hists_len());
 
-        debug_assert_eq!(phi-plo, *self.hist_layout.last().unwrap());
+        let buffer = self.slice_store.buffer_mut();
 
         for i in 0..(phi-plo) {
             let parent = buffer[(plo+i) as usize].clone();
@@ -297,9 +297,15 @@ where T: Clone + Default {
         }
     }
 
+    /// Length of the slice holding all histograms; never empty, even if there isn't a single bin
+    /// (e.g. because no feature is useful).
+    fn hists_len(&self) -> u32 {
+        (*self.hist_layout.last().unwrap()).max(1)
+    }
+
     pub fn alloc_hists(&mut self) -> SliceRange {
-        let total_bins = *self.hist_layout.last().unwrap();
-        self.slice_store.alloc_slice(total_bins, T::default())
+        let len = self.hists_len();
+        self.slice_store.alloc_slice(len, T::default())
     }
 
     pub fn free_hists(&mut self, r: SliceRange) {
-- 
2.43.0


From b9d54caa1261a40f8d6f723759683f359e8475e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 02/20] fix: binner must accept limits of a single value

A constant target, or residuals that are all equal, made the l1 and huber objectives panic; zero
gradient bounds did the same for high cardinality categorical features.
---
 src/binner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binner.rs b/src/binner.rs
index c6c443e..d414b01 100644
--- a/src/binner.rs
+++ b/src/binner.rs
@@ -18,7 +18,7 @@ impl <'a, BinT> Binner<'a, BinT> {
     pub fn new(bins: &'a mut [BinT], limits: (NumT, NumT)) -> Binner<'a, BinT> {
         assert!(limits.0.is_finite());
         assert!(limits.1.is_finite());
-        assert!(limits.0 < limits.1);
+        assert!(limits.0 <= limits.1); // equal if there is only one value: everything in one bin
         assert!(!bins.is_empty());
 
         let delta = (limits.1 - limits.0) / bins.len() as NumT;
-- 
2.43.0


From 43b6e778a7bbfed747cc079b153f5be19dbc79d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 03/20] fix: quantile ranks of high cardinality features must
 not wrap below zero

With a bag of fewer examples than about half of max_nbins the first rank is zero and the
subtraction overflowed: a panic in debug builds, only one useless split candidate in release builds.
---
 src/dataset.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 79e5b2e..6e0992f 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -143,7 +143,8 @@ impl <'a> InnerDataset<'a> {
         // extract quantiles
         let extractor = |bin: &u32| *bin;
         let rank_step = self.nactive_examples as NumT / (config.max_nbins + 1) as NumT;
-        let ranks = (1..=config.max_nbins).map(|i| (i as NumT * rank_step).round() as u32 - 1);
+        let ranks = (1..=config.max_nbins) // small bags: first ranks can round to zero
+            .map(|i| ((i as NumT * rank_step).round() as u32).saturating_sub(1));
         let qbins = binner.rank_iter(ranks, extractor);
         let mut last_bin = usize::max_value();
         let mut split_weights = Vec::with_capacity(config.max_nbins);
-- 
2.43.0


From 653f64645f92b554fbab9be3956d60545da84ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 04/20] fix: numerical split candidates must separate examples
 as the tree test does

The examples of a candidate split were looked up by bin, the finished tree tests value < split:
values at a bin boundary (rounding), and all values in the last bin, ended up on different sides, so
that training updated other leaves than prediction uses.
---
 src/dataset.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 6e0992f..b665f02 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -253,10 +253,13 @@ impl <'a> InnerDataset<'a> {
             //}
             //println!("NUM CAT = {} [ max={} feat_value={} < {:?}]", cat, nsplit_candidates,
             //         feat_value, split_candidates.get(cat));
-            let alt_cat = binner.bin_value(binner.get_bin(feat_value));
-            //println!("alt_cat = {}, cat = {}", alt_cat, cat);
-            //cat
-            alt_cat as usize
+            let mut cat = binner.bin_value(binner.get_bin(feat_value)) as usize;
+
+            // the bin only gives us the category of its boundary value: make sure the category
+            // agrees with the `value < split` test that is used by the tree
+            while cat > 0 && feat_value < split_candidates[cat-1] { cat -= 1; }
+            while cat < nsplit_candidates && feat_value >= split_candidates[cat] { cat += 1; }
+            cat
         };
         Self::zero_bitvecs(&mut self.store, bitvecs);
         Self::fill_bitvecs(&mut self.store, bitvecs, example_iter, get_cat);
-- 
2.43.0


From fc0e498fcb4bde31123d569a419cf544c93ea774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 05/20] fix: histogram entries below min_examples_leaf must
 keep their gradient sum

The sums of the right child are derived by subtracting those of the left
child, so a left entry without a sum corrupted the gains of the right child.
---
 src/tree/learner.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/tree/learner.rs b/src/tree/learner.rs
index 052f369..9f64a6c 100644
--- a/src/tree/learner.rs
+++ b/src/tree/learner.rs
@@ -723,7 +723,6 @@ macro_rules! build_histograms {
             let mask_store = &this.ctx.mask_store;
             let grad_store = &this.ctx.grad_store;
             let idx_store = &this.ctx.idx_store;
-            let config = this.ctx.config;
 
             //for &feat_id in this.dataset.active_features() {
             //    // For each possible split, compute left grad & count stats
@@ -732,7 +731,7 @@ macro_rules! build_histograms {
             //        let fmask = dataset.get_bitvec(feat_id, split_id);
             //        let (grad_sum, example_count) = get_grad_sum(n2s, &fmask,
             //                                                     mask_store, grad_store, idx_store,
-            //                                                     grad_bounds, config);
+            //                                                     grad_bounds);
             //        let histval = HistVal { grad_sum, example_count };
             //        let hist = this.ctx.hist_store.get_hist_mut(n2s.hists_range, feat_id);
             //        hist[split_id] = histval;
@@ -750,7 +749,7 @@ macro_rules! build_histograms {
                     let fmask = dataset.get_bitvec(feat_id, split_id);
                     let (grad_sum, example_count) = get_grad_sum(n2s, &fmask,
                                                                  mask_store, grad_store, idx_store,
-                                                                 grad_bounds, config);
+                                                                 grad_bounds);
                     let histval = HistVal { grad_sum, example_count };
                     (feat_id, split_id, histval)
                 })
@@ -806,8 +805,7 @@ macro_rules! get_grad_sum {
               mask_store: &BitBlockStore,
               grad_store: &BitBlockStore,
               idx_store: &BitBlockStore,
-              grad_bounds: (NumT, NumT),
-              config: &Config)
+              grad_bounds: (NumT, NumT))
             -> (NumT, u32)
         {
             let ems = mask_store.get_bitvec(n2s.mask_range);
@@ -815,7 +813,7 @@ macro_rules! get_grad_sum {
 
             if !n2s.compressed {
                 let count = ems.count_ones_and(&fmask) as u32;
-                if count < config.min_examples_leaf { return (0.0, count); }
+                if count == 0 { return (0.0, 0); }
                 let sum = unsafe { grads.sum_all_masked2_unsafe(&ems, &fmask) };
                 let sum = $bsl::linproj(sum as NumT, count as NumT, grad_bounds);
 
@@ -823,7 +821,7 @@ macro_rules! get_grad_sum {
             } else {
                 let indices = idx_store.get_bitvec(n2s.idx_range);
                 let count = unsafe { ems.count_ones_and_compr_unsafe(&indices, &fmask) } as u32;
-                if count < config.min_examples_leaf { return (0.0, count); }
+                if count == 0 { return (0.0, 0); }
                 let sum = unsafe { grads.sum_all_masked2_compr_unsafe(&indices, &ems, &fmask) };
                 let sum = $bsl::linproj(sum as NumT, count as NumT, grad_bounds);
 
-- 
2.43.0


From 417ae6ab0f6503e61d674c3c3db5ed35e92b8150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 06/20] fix: setting a feature's values again must replace all
 that describes it

Limits started from (0, 0) or from the previous values, the cardinality and
the type of previous values stayed, and invalid categorical values left the
feature half written.
---
 src/data.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index d457d67..a0113d6 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -150,27 +150,30 @@ impl Data {
         -> Result<(), String>
     {
         assert_eq!(data.len(), self.nexamples);
-        let feat = &mut self.features[feat_id];
-        let flim = &mut self.limits[feat_id];
-        let card = &mut self.cards[feat_id];
-        assert_eq!(feat.len(), self.nexamples);
-        for i in 0..self.nexamples {
-            let value = data[i];
-            feat[i] = value;
-            *flim = (flim.0.min(value), flim.1.max(value));
+
+        // determine limits and cardinality of the new values first: nothing changes when invalid
+        let mut lim = (POS_INF, NEG_INF);
+        let mut card = 0;
+        for &value in data {
+            lim = (lim.0.min(value), lim.1.max(value));
 
             if categorical {
                 Self::check_categorical_value(value)?;
-                *card = (*card).max(1 + into_cat(value) as usize);
-            }
-        }
-        if categorical {
-            if *card > self.max_nbins {
-                self.ftypes[feat_id] = FeatType::HiCardCat;
-            } else {
-                self.ftypes[feat_id] = FeatType::LoCardCat;
+                card = card.max(1 + into_cat(value) as usize);
             }
         }
+
+        assert_eq!(self.features[feat_id].len(), self.nexamples);
+        self.features[feat_id].copy_from_slice(data);
+        self.limits[feat_id] = lim;
+        self.cards[feat_id] = card;
+        self.ftypes[feat_id] = if !categorical {
+            FeatType::Numerical
+        } else if card > self.max_nbins {
+            FeatType::HiCardCat
+        } else {
+            FeatType::LoCardCat
+        };
         Ok(())
     }
 
-- 
2.43.0


From a1da982551cea3de564c05f9aed56dc43db9f2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 07/20] fix: gradients of high cardinality categories must be
 those of the bag's examples

---
 src/dataset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index b665f02..145c5bd 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -122,10 +122,10 @@ impl <'a> InnerDataset<'a> {
 
         // collect gradient sums & counts per categorical value
         let mut grad_stat_pairs: Vec<(NumT, u32)> = vec![(0.0, 0); card];
-        for (i, j) in example_iter.into_iter().enumerate() {
+        for j in example_iter.into_iter() {
             let category = into_cat(data[j]) as usize;
             let entry = &mut grad_stat_pairs[category];
-            entry.0 += grad[i];
+            entry.0 += grad[j];
             entry.1 += 1;
         }
 
-- 
2.43.0


From d7d1e7443733ebc450e77c9fc5f9d9cc25696cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 08/20] fix: a CSV source without records is an error, not a
 panic

---
 src/data.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data.rs b/src/data.rs
index a0113d6..927bebe 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -92,6 +92,8 @@ impl Data {
             record_count += 1;
         }
 
+        if record_len == 0 { return Err("CSV error: no records".to_string()); }
+
         // update feature types to high cardinality categorical if cards exceeds max_nbins
         for j in 0..record_len {
             if cards[j] > config.max_nbins {
-- 
2.43.0


From b7b10107e29e11518292ee6ae916e25165a687a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 09/20] fix: NULL column, result, name and value arguments must
 be rejected, not read

---
 src/c_api.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/c_api.rs b/src/c_api.rs
index 76c9eee..f13eafd 100644
--- a/src/c_api.rs
+++ b/src/c_api.rs
@@ -141,6 +141,7 @@ wrap_catch_unwind!(
         unsafe {
             let context = Context::from_raw_ptr_mut(ptr);
             assert!(0 <= feat_id && feat_id as usize <= context.nfeatures);
+            assert!(!column.is_null());
             let feat_id = feat_id as usize;
             let data = context.data.as_mut().expect("no data: use bb_refresh_data first");
 
@@ -159,6 +160,7 @@ wrap_catch_unwind!(
         unsafe {
             let context = Context::from_raw_ptr_mut(ptr);
             assert!(context.data.is_none(), "set options before loading data");
+            assert!(!name.is_null() && !value.is_null());
             let name = CStr::from_ptr(name).to_str().expect("invalid utf-8 in key");
             let value = CStr::from_ptr(value).to_str().expect("invalid utf-8 in value");
             context.config.parse_record(name, value).unwrap();
@@ -183,6 +185,7 @@ wrap_catch_unwind!(
     fn bb_predict(ptr: *mut c_void, result_out: *mut NumT) -> c_int | NEG1 {
         unsafe {
             let context = Context::from_raw_ptr_mut(ptr);
+            assert!(!result_out.is_null());
             let data = context.data.as_mut().expect("no data: use bb_refresh_data first");
             let model = context.model.as_ref().expect("no trained model");
             let result_out = slice::from_raw_parts_mut(result_out, data.nexamples());
-- 
2.43.0


From ee0ece27ae98495a365f3bb4eb262c729b0c2951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 10/20] fix: a context must be handed out and released also
 when stdout cannot be written

---
 src/c_api.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/c_api.rs b/src/c_api.rs
index f13eafd..ab5d0ea 100644
--- a/src/c_api.rs
+++ b/src/c_api.rs
@@ -3,6 +3,7 @@ use std::slice;
 use std::alloc::{Layout, alloc, dealloc};
 use std::ptr;
 use std::ffi::CStr;
+use std::io::{self, Write};
 
 use libc::{c_int, c_void, c_char};
 
@@ -64,7 +65,7 @@ impl Context {
 
 impl Drop for Context {
     fn drop(&mut self) {
-        println!("Rust: dropping Context {:p}", self as *const Context);
+        let _ = writeln!(io::stdout(), "Rust: dropping Context {:p}", self as *const Context);
     }
 }
 
@@ -108,14 +109,14 @@ wrap_catch_unwind!(
         assert!(nfeatures > 0);
         unsafe {
             let ptr = Context::alloc(nfeatures as usize);
-            println!("Rust: alloc Context {:?}", ptr);
+            let _ = writeln!(io::stdout(), "Rust: alloc Context {:?}", ptr);
             ptr as *mut c_void
         }
     }
 
     /// Call this to clean up your `*const Context` pointer.
     fn bb_dealloc(ptr: *mut c_void) -> c_int | NEG1 {
-        println!("Rust: dealloc Context {:?}", ptr);
+        let _ = writeln!(io::stdout(), "Rust: dealloc Context {:?}", ptr);
         unsafe {
             Context::dealloc(ptr as *mut Context);
             0
-- 
2.43.0


From 3888861dea42e11852643b2f2b5cc212dc4bfbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 11/20] fix: a failed allocation of a context must not be
 written to

---
 src/c_api.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c_api.rs b/src/c_api.rs
index ab5d0ea..f2a1d24 100644
--- a/src/c_api.rs
+++ b/src/c_api.rs
@@ -42,6 +42,7 @@ impl Context {
     unsafe fn alloc(nfeatures: usize) -> *mut Context {
         let layout = Layout::new::<Context>();
         let ptr = alloc(layout) as *mut c_void;
+        assert!(ptr != ptr::null_mut());
 
         let config = Config::new();
 
-- 
2.43.0


From 3fce74686c4c19571b29163e77a1ba04de9c57c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 12/20] fix: the Python wrapper must raise when the engine
 reports failure

---
 python/bitboost/bitboost.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/python/bitboost/bitboost.py b/python/bitboost/bitboost.py
index 39fc3ee..ad6fbd2 100644
--- a/python/bitboost/bitboost.py
+++ b/python/bitboost/bitboost.py
@@ -97,6 +97,8 @@ class RawBitBoost:
         self._nfeatures = nfeatures
         self._nexamples = -1 # set by set_data
         self._ctx_ptr = self._rust_alloc(self._nfeatures)
+        if not self._ctx_ptr:
+            raise Exception("BitBoost context could not be allocated")
 
     def __del__(self):
         if self._ctx_ptr:
@@ -104,13 +106,17 @@ class RawBitBoost:
 
     def dealloc(self):
         self._check()
-        self._rust_dealloc(self._ctx_ptr)
-        self._ctx_ptr = c_void_p(0)
+        ctx_ptr, self._ctx_ptr = self._ctx_ptr, c_void_p(0)
+        self._check_status(self._rust_dealloc(ctx_ptr), "dealloc")
 
     def _check(self):
         if not self._ctx_ptr:
             raise Exception("no BitBoost context")
 
+    def _check_status(self, status, action):
+        if status != 0:
+            raise Exception("BitBoost {} failed".format(action))
+
     def set_feature_data(self, feat_id, data, is_categorical):
         self._check()
         assert isinstance(data, np.ndarray)
@@ -120,7 +126,8 @@ class RawBitBoost:
         data = data.copy() # make copy to ensure congiguous, not optimal
         data_ptr = data.ctypes.data_as(self.numt_p)
         is_cat = 1 if is_categorical else 0
-        self._rust_set_fdata(self._ctx_ptr, feat_id, data_ptr, is_cat)
+        status = self._rust_set_fdata(self._ctx_ptr, feat_id, data_ptr, is_cat)
+        self._check_status(status, "set_feature_data")
 
     def set_data(self, data, cat_features = set()):
         self._check()
@@ -129,7 +136,8 @@ class RawBitBoost:
         assert data.shape[1] == self._nfeatures
 
         self._nexamples = data.shape[0]
-        self._rust_refresh_data(self._ctx_ptr, self._nexamples)
+        status = self._rust_refresh_data(self._ctx_ptr, self._nexamples)
+        self._check_status(status, "refresh_data")
 
         for feat_id in range(self._nfeatures):
             is_cat = feat_id in cat_features
@@ -146,7 +154,8 @@ class RawBitBoost:
                 value = ",".join(map(str, value))
         n = c_char_p(bytes(str(name), "utf8"))
         v = c_char_p(bytes(str(value), "utf8"))
-        self._rust_set_config_field(self._ctx_ptr, n, v)
+        status = self._rust_set_config_field(self._ctx_ptr, n, v)
+        self._check_status(status, "set_config_field")
 
     def set_config(self, values):
         self._check()
@@ -156,14 +165,16 @@ class RawBitBoost:
 
     def train(self):
         self._check()
-        self._rust_train(self._ctx_ptr)
+        status = self._rust_train(self._ctx_ptr)
+        self._check_status(status, "train")
 
     def predict(self):
         self._check()
         assert self._nexamples > 0
         output = np.zeros(self._nexamples, dtype=self.numt)
         output_ptr = output.ctypes.data_as(self.numt_p)
-        self._rust_predict(self._ctx_ptr, output_ptr)
+        status = self._rust_predict(self._ctx_ptr, output_ptr)
+        self._check_status(status, "predict")
         return output
 
     def write_model(self):
-- 
2.43.0


From 989fe67b28b8c36a4ee007ce8862e714046f8935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 13/20] fix: a Python wrapper object whose construction failed
 must still be deletable

---
 python/bitboost/bitboost.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/bitboost/bitboost.py b/python/bitboost/bitboost.py
index ad6fbd2..3055cb7 100644
--- a/python/bitboost/bitboost.py
+++ b/python/bitboost/bitboost.py
@@ -92,6 +92,7 @@ class RawBitBoost:
     _rust_predict.restype = c_int
 
     def __init__(self, nfeatures, nexamples):
+        self._ctx_ptr = c_void_p(0)
         assert nfeatures > 0
         assert nexamples > 0
         self._nfeatures = nfeatures
-- 
2.43.0


From 29f9ec1e93c7d76a900b67bd0bb9c74bd4272ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 14/20] fix: the Python wrapper's result buffer must fit the
 data the engine holds

---
 python/bitboost/bitboost.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/bitboost/bitboost.py b/python/bitboost/bitboost.py
index 3055cb7..9873216 100644
--- a/python/bitboost/bitboost.py
+++ b/python/bitboost/bitboost.py
@@ -136,9 +136,9 @@ class RawBitBoost:
         assert data.dtype == self.numt
         assert data.shape[1] == self._nfeatures
 
-        self._nexamples = data.shape[0]
-        status = self._rust_refresh_data(self._ctx_ptr, self._nexamples)
+        status = self._rust_refresh_data(self._ctx_ptr, data.shape[0])
         self._check_status(status, "refresh_data")
+        self._nexamples = data.shape[0]
 
         for feat_id in range(self._nfeatures):
             is_cat = feat_id in cat_features
-- 
2.43.0


From 3bf36fe52ce494decba5b75c6817da3a7be4e589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 15/20] fix: the Python wrapper must not hand the engine a
 column of another length than its data

---
 python/bitboost/bitboost.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/bitboost/bitboost.py b/python/bitboost/bitboost.py
index 9873216..f2c3020 100644
--- a/python/bitboost/bitboost.py
+++ b/python/bitboost/bitboost.py
@@ -123,6 +123,7 @@ class RawBitBoost:
         assert isinstance(data, np.ndarray)
         assert data.dtype == self.numt
         assert 0 <= feat_id and feat_id <= self._nfeatures
+        assert data.size == self._nexamples
         assert isinstance(is_categorical, bool) 
         data = data.copy() # make copy to ensure congiguous, not optimal
         data_ptr = data.ctypes.data_as(self.numt_p)
-- 
2.43.0


From 0633e82f12a791cf229faf33a850fca81d12b674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 16/20] fix: a minimum leaf size of zero must not lead to an
 empty leaf

---
 src/tree/learner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/learner.rs b/src/tree/learner.rs
index 9f64a6c..bbd8f71 100644
--- a/src/tree/learner.rs
+++ b/src/tree/learner.rs
@@ -297,7 +297,7 @@ where 'a: 'b {
     fn find_best_split(&mut self, n2s: &Node2Split) -> Split {
         let mut best_split = Split::no_split();
         let mut best_gain = self.ctx.config.min_gain;
-        let min_examples = self.ctx.config.min_examples_leaf;
+        let min_examples = self.ctx.config.min_examples_leaf.max(1); // a leaf is never empty
 
         let (pgrad, pcount) = (n2s.grad_sum, n2s.example_count);
         let ploss = self.get_loss(pgrad, pcount);
-- 
2.43.0


From 3fdb69b623be319e9335d66c513d8b19e912e66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 17/20] fix: the binary objective must not start from an
 infinite prior when there is a single class

---
 src/objective.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/objective.rs b/src/objective.rs
index 5b21e9c..16239aa 100644
--- a/src/objective.rs
+++ b/src/objective.rs
@@ -333,6 +333,7 @@ impl Objective for Binary {
         let nneg = targets.iter().filter(|&x| *x < 0.5).count() as NumT;
         let npos = n as NumT - nneg;
         let avg  = (-1.0 * nneg + 1.0 * npos) / n as NumT;
+        let avg  = avg.max(EPSILON - 1.0).min(1.0 - EPSILON); // a single class: keep prior finite
         let prior = 0.5 * ((1.0 + avg) / (1.0 - avg)).ln();
 
         self.initialize_base(config, n, prior);
-- 
2.43.0


From 6d0238e52783a44117920a5df5bd098ec759767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 18/20] fix: a categorical value that does not fit a category
 must be rejected

---
 src/data.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 927bebe..8c7d347 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -10,7 +10,7 @@ use std::fs::File;
 
 use csv;
 
-use crate::{NumT, POS_INF, NEG_INF, into_cat};
+use crate::{NumT, CatT, POS_INF, NEG_INF, into_cat};
 use crate::config::Config;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -209,7 +209,8 @@ impl Data {
     }
 
     fn check_categorical_value(value: NumT) -> Result<(), String> {
-        if value.round() != value || value < 0.0 {
+        // a category is a `CatT`: larger values (and infinity) would not be told apart
+        if value.round() != value || value < 0.0 || value >= CatT::max_value() as NumT {
             Err(format!("Invalid categorical value {}", value))
         } else {
             Ok(())
-- 
2.43.0


From 6c57925cd053c9eb15b5576364af473fcf991ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:15 +0000
Subject: [PATCH 19/20] fix: the Python estimator must convert what it is given
 to the engine's number type

---
 python/bitboost/sklearn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/bitboost/sklearn.py b/python/bitboost/sklearn.py
index aa03891..86ffc8d 100644
--- a/python/bitboost/sklearn.py
+++ b/python/bitboost/sklearn.py
@@ -38,6 +38,7 @@ class BitBoost(BaseEstimator):
         """
         X, y = check_X_y(X, y, accept_sparse=False, dtype=self.numt,
                          order="F") # column-major
+        y = np.asarray(y, dtype=self.numt) # check_X_y only converts X
 
         nexamples, nfeatures = X.shape
 
@@ -64,7 +65,7 @@ class BitBoost(BaseEstimator):
         y : ndarray, shape (n_samples,)
             Returns an array of predictions.
         """
-        X = check_array(X, accept_sparse=False)
+        X = check_array(X, accept_sparse=False, dtype=self.numt)
         check_is_fitted(self, "_is_fitted")
 
         self._bitboost.set_data(X)
-- 
2.43.0


From f81feef11928706f2b9f71d6c7ee52bda3741d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:12 +0000
Subject: [PATCH 20/20] fix: a value on a configuration line may contain an
 equals sign

---
 src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 2523bd0..76781a0 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -66,7 +66,7 @@ macro_rules! parse_config {
             }
 
             fn parse_record_str<'a>(&mut self, line: &'a str) -> Result<(), String> {
-                let mut iter = line.split('=');
+                let mut iter = line.splitn(2, '='); // a value (e.g. a path) can contain a '='
                 let name = iter.next().ok_or(format!("invalid config line: {}", line))?;
                 let value = iter.next().ok_or(format!("invalid config line: {}", line))?;
                 self.parse_record(name.trim(), value.trim())?;
-- 
2.43.0

