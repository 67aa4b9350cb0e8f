From 25958f4206aece04849c45d499f206993c055afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 01/11] fix: encrypt RGSW polynomials with the ciphertext's own
 base

encrypt_rgsw scaled the message with the default base_log even when the
output ciphertext (e.g. the -s key) uses another one.
---
 src/rlwe.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 8295b77..33b42b5 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -450,9 +450,10 @@ impl RLWESecretKey {
         // first create a constant encryption of 0, then add the decomposed encoded value to it
         self.encrypt_constant_rgsw(out, &Plaintext(Scalar::zero()), ctx);
         let mut buf = PlaintextList::allocate(Scalar::zero(), ctx.plaintext_count());
+        let base_log = out.decomposition_base_log().0;
         for (i, mut m) in out.0.as_mut_glwe_list().ciphertext_iter_mut().enumerate() {
             let level = (i / 2) + 1;
-            let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
+            let shift: usize = (Scalar::BITS as usize) - base_log * level;
             buf.as_mut_tensor().fill_with_copy(encoded.as_tensor());
             mul_const(buf.as_mut_tensor(), 1 << shift);
             if i % 2 == 0 {
-- 
2.43.0


From f1f510f73034f02aaf0e3f72ecf71df8c6957bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 02/11] fix: encode the plaintext in compute_noise_ternary

---
 src/rlwe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 33b42b5..d19e676 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -1290,7 +1290,7 @@ where
 {
     let mut tmp = PlaintextList::allocate(Scalar::zero(), ptxt.count());
     tmp.as_mut_tensor().fill_with_copy(ptxt.as_tensor());
-    Codec::poly_ternary_decode(&mut tmp.as_mut_polynomial());
+    Codec::poly_ternary_encode(&mut tmp.as_mut_polynomial());
     compute_noise(sk, ct, &tmp)
 }
 
-- 
2.43.0


From 68b314862711368a829c27aa747f4eb29f8c8f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 03/11] fix: refuse index lists that cannot be placed

The check for exhausted hash functions could never fire, so an index
whose rows were all taken was silently dropped from the mapping.
---
 src/naive_hash.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/naive_hash.rs b/src/naive_hash.rs
index 1fb1441..167f34b 100644
--- a/src/naive_hash.rs
+++ b/src/naive_hash.rs
@@ -73,15 +73,17 @@ impl NaiveHash {
         // TODO this is just a greedy algorithm, can be improved
         let mut out: HashMap<usize, (usize, usize)> = HashMap::new();
         for i in is {
+            let mut placed = false;
             for h in 0..self.h_count() {
                 let (r, c) = self.hash_to_tuple(h, *i, d);
                 if let Entry::Vacant(e) = out.entry(r) {
                     e.insert((c, *i));
+                    placed = true;
                     break;
                 }
-                if h >= self.h_count() {
-                    panic!("all slots are taken for i={}", i);
-                }
+            }
+            if !placed {
+                panic!("all slots are taken for i={}", i);
             }
         }
         out
-- 
2.43.0


From c103f73f1d507b5456ab2cd37c67766874c3c918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 04/11] fix: do not require a rayon worker thread in the ORAM
 server

Parallel iterators of length one run on the calling thread, where
current_thread_index() is None: a single query in process_multi, one level,
one row or one item made the server panic.
---
 src/oram.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/oram.rs b/src/oram.rs
index 690a34b..54eb06b 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -33,6 +33,12 @@ impl FftBufferPool {
     }
 }
 
+/// Index of the FFT buffer for the current thread. A parallel iterator with a
+/// single element may run on the calling thread, which is not in the pool.
+fn thread_id() -> usize {
+    rayon::current_thread_index().unwrap_or(0)
+}
+
 struct EncOP(RGSWCiphertext);
 
 enum OP {
@@ -249,7 +255,7 @@ fn process_one_mt(
     ctx: &Context,
 ) -> (RLWECiphertext, Vec<RGSWCiphertext>) {
     let f = |level: usize| {
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = thread_id();
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
         *c.get_mut_body().as_mut_tensor().first_mut() = Scalar::one() << shift;
@@ -268,7 +274,7 @@ fn process_one_mt(
     assert_eq!(decomposed_l.len(), cols);
 
     let g = |j: usize| {
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = thread_id();
         let l = decomposed_rlwe_to_rgsw(
             &decomposed_l[j],
             neg_s,
@@ -310,7 +316,7 @@ fn update_db_mt(
     ctx: &Context,
 ) {
     let g = |j: usize, l: &RGSWCiphertext| {
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = thread_id();
         let tmp: RLWECiphertext = rw(
             &query.op,
             &query.data,
@@ -348,7 +354,7 @@ fn process_one_st(
     ctx: &Context,
 ) -> (RLWECiphertext, Vec<RGSWCiphertext>) {
     let mut demux_res: Vec<Vec<RLWECiphertext>> = vec![];
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = thread_id();
     for level in 1..=ctx.level_count.0 {
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
@@ -391,7 +397,7 @@ fn update_db_st(
     buf: &FftBufferPool,
     ctx: &Context,
 ) {
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = thread_id();
     let cols = data.read().unwrap().len();
     for j in 0..cols {
         // update the database at index j
@@ -470,7 +476,7 @@ impl Server {
 
         // sum the output of rw*t in parallel (over multiple queries)
         let tmps = queries.into_par_iter().zip(&ls).map(|(query, l)| {
-            let tid = rayon::current_thread_index().unwrap();
+            let tid = thread_id();
             let mut out = vec![RLWECiphertext::allocate(self.ctx.poly_size); cols];
             for j in 0..cols {
                 let tmp = rw(
@@ -524,7 +530,7 @@ impl Server {
             .collect::<Vec<usize>>()
             .into_par_iter()
             .for_each(|j| {
-                let tid = rayon::current_thread_index().unwrap();
+                let tid = thread_id();
                 let mut new_data = RLWECiphertext::allocate(self.ctx.poly_size);
                 sumed_ls[j].cmux_with_buf(
                     &mut new_data,
@@ -631,7 +637,7 @@ fn correct_consistency(
     ctx: &Context,
     buf: &FftBufferPool,
 ) -> RLWECiphertext {
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = thread_id();
     let first_r = positions[0].0;
     let first_c = positions[0].1;
     let v1s: Vec<RLWECiphertext> = positions
-- 
2.43.0


From aff146e83d3f5cf7d43564cb6037c9b854c060ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 05/11] fix: keep items accessed by several queries of one
 process_multi call

The update summed the selectors and new values of all queries, so an item
selected by k of them became k*new - (k-1)*old, even if all were reads.
---
 src/oram.rs | 66 ++++++++++-------------------------------------------
 1 file changed, 12 insertions(+), 54 deletions(-)

diff --git a/src/oram.rs b/src/oram.rs
index 54eb06b..077d6bc 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -474,73 +474,31 @@ impl Server {
             .unzip();
         let dur = start.elapsed();
 
-        // sum the output of rw*t in parallel (over multiple queries)
-        let tmps = queries.into_par_iter().zip(&ls).map(|(query, l)| {
+        // then update the db in parallel (over multiple indices), the queries are applied
+        // one after the other since several of them may access the same index
+        (0..cols).into_par_iter().for_each(|j| {
             let tid = thread_id();
-            let mut out = vec![RLWECiphertext::allocate(self.ctx.poly_size); cols];
-            for j in 0..cols {
+            let mut new_data = self.data[0].clone().read().unwrap()[j].clone();
+            for (query, l) in queries.iter().zip(&ls) {
                 let tmp = rw(
                     &query.op,
                     &query.data,
-                    &self.data[0].clone().read().unwrap()[j],
+                    &new_data,
                     &self.ctx,
                     &mut buf.pool[tid].clone().lock().unwrap(),
                 );
-                // L * t
-                l[j].external_product_with_buf(
-                    &mut out[j],
+                let mut out = RLWECiphertext::allocate(self.ctx.poly_size);
+                l[j].cmux_with_buf(
+                    &mut out,
+                    &new_data,
                     &tmp,
                     &mut buf.pool[tid].clone().lock().unwrap(),
                 );
+                new_data = out;
             }
-            out
+            self.data[0].clone().write().unwrap()[j].fill_with_copy(&new_data);
         });
 
-        let sumed_tmps = tmps.reduce(
-            || vec![RLWECiphertext::allocate(self.ctx.poly_size); cols],
-            |mut xs, ys| {
-                for i in 0..xs.len() {
-                    xs[i].update_with_add(&ys[i]);
-                }
-                xs
-            },
-        );
-
-        let sumed_ls = ls.into_par_iter().reduce(
-            || {
-                vec![
-                    RGSWCiphertext::allocate(
-                        self.ctx.poly_size,
-                        self.ctx.base_log,
-                        self.ctx.level_count
-                    );
-                    cols
-                ]
-            },
-            |mut xs, ys| {
-                for i in 0..xs.len() {
-                    xs[i].update_with_add(&ys[i]);
-                }
-                xs
-            },
-        );
-
-        // finally update the db in parallel (over multiple indices)
-        (0..cols)
-            .collect::<Vec<usize>>()
-            .into_par_iter()
-            .for_each(|j| {
-                let tid = thread_id();
-                let mut new_data = RLWECiphertext::allocate(self.ctx.poly_size);
-                sumed_ls[j].cmux_with_buf(
-                    &mut new_data,
-                    &self.data[0].clone().read().unwrap()[j],
-                    &sumed_tmps[j],
-                    &mut buf.pool[tid].clone().lock().unwrap(),
-                );
-                self.data[0].clone().write().unwrap()[j].fill_with_copy(&new_data);
-            });
-
         (ys, dur)
     }
 
-- 
2.43.0


From 2a56c43c555af631f46b8b4b4afb80d512c65588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 06/11] fix: multiply the body in update_body_with_mul

The body was cleared before it was multiplied, the result was always zero.
---
 src/rlwe.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index d19e676..2bf2c47 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -148,7 +148,11 @@ impl RLWECiphertext {
             .as_mut_tensor()
             .fill_with_copy(self.get_body().as_tensor());
         self.get_mut_body().as_mut_tensor().fill_with(Scalar::zero);
-        naive_update_with_mul(&mut self.get_mut_body().as_mut_polynomial(), other);
+        naive_update_with_mul_acc(
+            &mut self.get_mut_body().as_mut_polynomial(),
+            &poly_buffer.as_mut_view(),
+            other,
+        );
     }
 
     pub fn update_body_with_mul_with_buf(&mut self, other: &Polynomial<&[Scalar]>) {
-- 
2.43.0


From 7475762bc481f54cbc6cbe2b3e96603b2d73fc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 07/11] fix: recompose the label of trees with only zero labels

---
 src/decision_tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decision_tree.rs b/src/decision_tree.rs
index ee3bd66..8568ef2 100644
--- a/src/decision_tree.rs
+++ b/src/decision_tree.rs
@@ -632,6 +632,10 @@ fn decrypt_and_recompose(sk: &RLWESecretKey, cts: &Vec<RLWECiphertext>, ctx: &Co
             _ => panic!("expected binary plaintext"),
         }
     }
+    // a tree with only zero labels has no output bits
+    if bv.is_empty() {
+        return Scalar::zero();
+    }
     bv.load::<Scalar>()
 }
 
-- 
2.43.0


From f817c5f7ad6848aecd8ae2e14d3190e2a6690a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 08/11] fix: noise of an error of exactly half the modulus

i64::MIN has no absolute value in i64.
---
 src/rlwe.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 2bf2c47..1eae852 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -1273,10 +1273,10 @@ where
     pt.as_mut_polynomial()
         .update_with_wrapping_sub(&encoded_ptxt.as_polynomial());
 
-    let mut max_e: SignedScalar = 0;
+    let mut max_e: Scalar = 0;
     for x in pt.as_tensor().iter() {
         // convert x to signed
-        let z = (*x as SignedScalar).abs();
+        let z = (*x as SignedScalar).unsigned_abs();
         if z > max_e {
             max_e = z;
         }
-- 
2.43.0


From c8c5858352e73d62f71b3942acf6038c46936a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 09/11] fix: demultiplex with zero bits

An ORAM with a single column has no index bits and made the server panic.
---
 src/decision_tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decision_tree.rs b/src/decision_tree.rs
index 8568ef2..3098f3c 100644
--- a/src/decision_tree.rs
+++ b/src/decision_tree.rs
@@ -499,6 +499,9 @@ pub fn demux_with(
     ctx: &Context,
     buf: &mut FftBuffer,
 ) -> Vec<RLWECiphertext> {
+    if bits.is_empty() {
+        return vec![b];
+    }
     demux_rec(0, b, bits, ctx, buf)
 }
 
-- 
2.43.0


From 9caba71c575b06e9aaa3165f4e53d42fb0a1e51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 10/11] fix: number of label bits for very large labels

The floating point logarithm lost the top bits of labels from 2^49 on and
overflowed for usize::MAX.
---
 src/decision_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decision_tree.rs b/src/decision_tree.rs
index 3098f3c..0c75369 100644
--- a/src/decision_tree.rs
+++ b/src/decision_tree.rs
@@ -375,7 +375,7 @@ impl EncNode {
 
     /// Evaluate the tree.
     pub fn eval(&self, ctx: &Context, buf: &mut FftBuffer) -> Vec<RLWECiphertext> {
-        let max_leaf_bits = ((self.max_leaf() + 1) as f64).log2().ceil() as usize;
+        let max_leaf_bits = (usize::BITS - self.max_leaf().leading_zeros()) as usize;
         let mut out = vec![RLWECiphertext::allocate(ctx.poly_size); max_leaf_bits];
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         *c.get_mut_body().as_mut_tensor().first_mut() = Scalar::one();
-- 
2.43.0


From 08303077060a554b7a5b94c79a2136df244841c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 11/11] fix: compute the RGSW noise over the ciphertext's own
 levels

---
 src/rgsw.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rgsw.rs b/src/rgsw.rs
index 1fe50a9..69c0c08 100644
--- a/src/rgsw.rs
+++ b/src/rgsw.rs
@@ -244,14 +244,15 @@ impl RGSWCiphertext {
 /// by computing the noise on the RLWE rows and taking the average.
 pub fn compute_noise_rgsw1(sk: &RLWESecretKey, ct: &RGSWCiphertext, ctx: &Context) -> f64 {
     let mut total_noise = 0f64;
-    for level in 0..ctx.level_count.0 {
-        let shift = (Scalar::BITS as usize) - ctx.base_log.0 * (level + 1);
+    let level_count = ct.decomposition_level_count().0;
+    for level in 0..level_count {
+        let shift = (Scalar::BITS as usize) - ct.decomposition_base_log().0 * (level + 1);
         let mut pt = ctx.gen_unit_pt();
         mul_const(&mut pt.as_mut_tensor(), 1 << shift);
         let noise = compute_noise(sk, &ct.get_nth_row(level * 2 + 1), &pt);
         total_noise += noise;
     }
-    total_noise / ctx.level_count.0 as f64
+    total_noise / level_count as f64
 }
 
 #[cfg(test)]
-- 
2.43.0

