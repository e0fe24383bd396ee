From 6b3e284dc83d29239291952ab15d0ef1fb8f2b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 01/19] fix: indexing sparse features returns the stored
 activation

Index<usize> returned 1.0 for every stored entry, whatever its activation.
---
 src/features.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index ebcd9db..470d783 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -719,11 +719,7 @@ impl Index<usize> for Features {
         apply_to_features!(self => da, {
             da.index(idx)
         }; sa, {
-            if sa.activations.contains_key(&idx) {
-                &1.0
-            } else {
-                &0.0
-            }
+            sa.activations.get(&idx).unwrap_or(&0.0)
         })
     }
 }
-- 
2.43.0


From e96c3baf2f238c43e1ce71516090609e45388d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 02/19] fix: dot product of two sparse feature vectors uses the
 activations

It counted the shared indices, which is only right for unit activations.
---
 src/features.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 470d783..6ba7862 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -689,13 +689,9 @@ impl ndarray::linalg::Dot<Features> for Features {
 
         match self {
             Sparse(sa1) => match rhs {
-                Sparse(sa2) => sa1.activations.keys().fold(0, |acc, k| {
-                    acc + if sa2.activations.contains_key(k) {
-                        1
-                    } else {
-                        0
-                    }
-                }) as f64,
+                Sparse(sa2) => sa1.iter().fold(0.0, |acc, (k, a)| {
+                    acc + a * sa2.activations.get(k).unwrap_or(&0.0)
+                }),
                 Dense(da2) => Features::dot_sparse(sa1, da2),
             },
             Dense(da1) => match rhs {
-- 
2.43.0


From 414de30ff8ceb261dae239be17eae994d366581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 03/19] fix: keep the dimensionality when converting
 SparseActivations into Features

The declared dim was replaced by the largest active index plus one, and a
vector without active features panicked.
---
 src/features.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 6ba7862..bbba600 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -755,12 +755,7 @@ impl FromIterator<ActivationT> for Features {
 
 impl From<SparseActivations> for Features {
     fn from(sa: SparseActivations) -> Features {
-        let n = sa.activations.iter().map(|(i, _)| i).max().unwrap() + 1;
-
-        SparseFeatures(SparseActivations {
-            dim: n,
-            activations: sa.activations,
-        })
+        SparseFeatures(sa)
     }
 }
 
-- 
2.43.0


From 390745778b5817721450043533f36f3104f828ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:34 +0000
Subject: [PATCH 04/19] fix: converting an empty index vector into Features no
 longer panics

---
 src/features.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features.rs b/src/features.rs
index bbba600..1b318db 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -761,7 +761,7 @@ impl From<SparseActivations> for Features {
 
 impl From<Vec<IndexT>> for Features {
     fn from(indices: Vec<IndexT>) -> Features {
-        let n = indices.iter().max().unwrap() + 1;
+        let n = indices.iter().max().map_or(0, |i| i + 1);
 
         SparseFeatures(SparseActivations {
             dim: n,
-- 
2.43.0


From 181e1f39ff4124fb2afa1e6a86fc0ed12bb3344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:34 +0000
Subject: [PATCH 05/19] fix: merging dense with sparse features covers every
 component

With a dense left operand the operation was applied at the sparse operand's
active indices only (so e.g. a product kept the other components unchanged),
and a length mismatch between the operands panicked.
---
 src/features.rs | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 1b318db..8931e7f 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -428,21 +428,24 @@ impl Features {
 
         match self {
             Dense(da1) => {
-                let mut a_out = da1.clone();
-
                 match other {
                     Dense(da2) => {
-                        a_out.zip_mut_with(da2, |x, y| *x = f(*x, *y));
+                        let mut a_out = da1.clone();
 
-                        Dense(a_out)
-                    }
-                    Sparse(sa2) => {
-                        for (&i, a) in sa2.iter() {
-                            a_out[i] = f(a_out[i], *a);
-                        }
+                        a_out.zip_mut_with(da2, |x, y| *x = f(*x, *y));
 
                         Dense(a_out)
                     }
+                    Sparse(sa2) => Dense(
+                        (0..da1.len().max(sa2.dim))
+                            .map(|i| {
+                                f(
+                                    da1.get(i).copied().unwrap_or(0.0),
+                                    sa2.activations.get(&i).copied().unwrap_or(0.0),
+                                )
+                            })
+                            .collect(),
+                    ),
                 }
             }
             Sparse(sa1) => match other {
@@ -453,7 +456,7 @@ impl Features {
                     for i in 0..n {
                         phi[i] = MaybeUninit::new(f(
                             sa1.activations.get(&i).cloned().unwrap_or(0.0),
-                            da2[i],
+                            da2.get(i).copied().unwrap_or(0.0),
                         ));
                     }
 
@@ -494,13 +497,16 @@ impl Features {
 
                     Dense(da1)
                 }
-                Sparse(sa2) => {
-                    for (&i, a) in sa2.iter() {
-                        da1[i] = f(da1[i], *a);
-                    }
-
-                    Dense(da1)
-                }
+                Sparse(sa2) => Dense(
+                    (0..da1.len().max(sa2.dim))
+                        .map(|i| {
+                            f(
+                                da1.get(i).copied().unwrap_or(0.0),
+                                sa2.activations.get(&i).copied().unwrap_or(0.0),
+                            )
+                        })
+                        .collect(),
+                ),
             },
             Sparse(mut sa1) => match other {
                 Dense(da2) => {
-- 
2.43.0


From 78850d3de2f19ab518a296202859ae1be1e775b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:34 +0000
Subject: [PATCH 06/19] fix: merging two sparse feature vectors covers the
 inactive components

An operation with f(0, 0) != 0 was not applied where both are inactive. As in
map, such an operation now yields dense features.
---
 src/features.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 8931e7f..a416983 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -462,7 +462,7 @@ impl Features {
 
                     unsafe { Dense(phi.assume_init()) }
                 }
-                Sparse(sa2) => {
+                Sparse(sa2) if f(0.0, 0.0).abs() < 1e-5 => {
                     let mut idx_out = sa1.activations.clone();
 
                     for (i, a) in idx_out.iter_mut() {
@@ -478,6 +478,7 @@ impl Features {
                         activations: idx_out,
                     })
                 }
+                Sparse(_) => self.merge(&Dense(other.to_dense()), f),
             },
         }
     }
@@ -522,7 +523,7 @@ impl Features {
 
                     unsafe { Dense(phi.assume_init()) }
                 }
-                Sparse(sa2) => {
+                Sparse(sa2) if f(0.0, 0.0).abs() < 1e-5 => {
                     for (i, a) in sa1.activations.iter_mut() {
                         *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));
                     }
@@ -536,6 +537,7 @@ impl Features {
                         activations: sa1.activations,
                     })
                 }
+                Sparse(_) => Sparse(sa1).merge(&Dense(other.to_dense()), f),
             },
         }
     }
-- 
2.43.0


From 06e4cefc6ceb48d882f621ae9da92f0dff741c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:34 +0000
Subject: [PATCH 07/19] fix: in-place map and merge leave the features intact
 if the closure panics

Both put an all-zero bit pattern in place of the features while the closure
ran, which is not a valid Features: undefined behaviour, and after a panic the
activations were lost and a sparse vector had become an empty dense one.
---
 src/features.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index a416983..22f88b2 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -2,7 +2,7 @@
 use ndarray::{linalg::Dot, Array1, ArrayBase, Data, DataMut, Dimension, NdIndex};
 use std::{
     iter::FromIterator,
-    mem::{self, MaybeUninit},
+    mem::MaybeUninit,
     ops::{AddAssign, Index},
 };
 
@@ -376,10 +376,7 @@ impl Features {
 
     /// Mutate all feature activations inplace using an operation, `f`.
     pub fn map_inplace(&mut self, f: impl Fn(ActivationT) -> ActivationT) {
-        let tmp = unsafe { mem::MaybeUninit::zeroed().assume_init() };
-        let old = mem::replace(self, tmp);
-
-        mem::drop(mem::replace(self, old.map_into(f)));
+        *self = self.map(f);
     }
 
     /// Map the function `f` over the internal `DenseActivations` representation
@@ -549,10 +546,7 @@ impl Features {
         other: &Features,
         f: impl Fn(ActivationT, ActivationT) -> ActivationT,
     ) {
-        let tmp = unsafe { mem::MaybeUninit::zeroed().assume_init() };
-        let old = mem::replace(self, tmp);
-
-        mem::drop(mem::replace(self, old.merge_into(other, f)));
+        *self = self.merge(other, f);
     }
 
     /// Perform a fold operation over the feature activations.
-- 
2.43.0


From 6a59fe470632622065a4f7fb2d30a8471c39e6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:34 +0000
Subject: [PATCH 08/19] fix: dense features with a non-standard memory layout
 stack and convert correctly

into_raw_vec exposes the memory of a sliced or reversed array, not its elements,
and as_slice().unwrap() panics on a reversed one.
---
 src/features.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 22f88b2..96f3e2f 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -303,8 +303,8 @@ impl Features {
                 })
             }
             (f1, f2) => {
-                let mut all_activations = f1.into_dense().into_raw_vec();
-                all_activations.extend_from_slice(f2.into_dense().as_slice().unwrap());
+                let mut all_activations = f1.into_dense().to_vec();
+                all_activations.extend(f2.into_dense().iter());
 
                 Dense(all_activations.into())
             }
@@ -780,7 +780,7 @@ impl From<Features> for DenseActivations {
 
 impl From<Features> for Vec<ActivationT> {
     fn from(phi: Features) -> Vec<ActivationT> {
-        phi.into_dense().into_raw_vec()
+        phi.into_dense().to_vec()
     }
 }
 
-- 
2.43.0


From da86b99fafcadc56dd856f2b7b20aee6a5c2bdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:34 +0000
Subject: [PATCH 09/19] fix: vector update_with reads the errors in logical
 order

into_raw_vec on the closure's result exposes the memory of a sliced or reversed
array, so the wrong errors were applied.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7e4da79..d484aef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -307,7 +307,7 @@ impl<B, O> VectorLFA<B, O> {
         self.basis.project(input).and_then(|ref b| {
             let opt = &mut self.optimiser;
             let values = b.matmul(&self.weights);
-            let errors = f(b, values).into_raw_vec();
+            let errors = f(b, values);
 
             errors
                 .into_iter()
-- 
2.43.0


From ecf5c2117617ec9a6dd184c27c990e477eb998f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 10/19] fix: a dense Fixed basis enumerates all of its features

ith only accepted index 0 (and panicked on it when there are no constants).
---
 src/basis/constant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/constant.rs b/src/basis/constant.rs
index e6e0994..2c08c56 100644
--- a/src/basis/constant.rs
+++ b/src/basis/constant.rs
@@ -65,7 +65,7 @@ impl<T> Basis<T> for Fixed<Vec<f64>> {
 
 impl<T> EnumerableBasis<T> for Fixed<Vec<f64>> {
     fn ith(&self, _: T, index: IndexT) -> Result<ActivationT> {
-        check_index!(index < 1 => {
+        check_index!(index < self.0.len() => {
             Ok(*self.0.get(index).unwrap())
         })
     }
-- 
2.43.0


From 2c67eafcdc9cead229dbaeacf368541b77ea375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 11/19] fix: ith of a normalised sparse projection no longer
 panics on inactive features

---
 src/basis/normalisation.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/basis/normalisation.rs b/src/basis/normalisation.rs
index 6fa0fc4..9d2e59f 100644
--- a/src/basis/normalisation.rs
+++ b/src/basis/normalisation.rs
@@ -48,7 +48,7 @@ where
                 .map(|f| {
                     let z = f.n_active() as f64;
 
-                    unsafe { f.uget(index).unwrap() / z }
+                    unsafe { f.uget(index).unwrap_or(&0.0) / z }
                 })
         })
     }
@@ -117,7 +117,7 @@ where
                     da[index] / z
                 },
                 Features::Sparse(sa) =>
-                    sa.activations[&index] / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs()),
+                    sa.activations.get(&index).unwrap_or(&0.0) / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs()),
             })
         })
     }
@@ -186,7 +186,7 @@ where
                     da[index] / z
                 },
                 Features::Sparse(sa) =>
-                    sa.activations[&index] / sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt(),
+                    sa.activations.get(&index).unwrap_or(&0.0) / sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt(),
             })
         })
     }
@@ -256,7 +256,7 @@ where
 
                     da[index] / z
                 },
-                Features::Sparse(sa) => sa.activations[&index] / sa.iter().fold(
+                Features::Sparse(sa) => sa.activations.get(&index).unwrap_or(&0.0) / sa.iter().fold(
                     f64::NEG_INFINITY,
                     |acc, (_, x)| acc.max(x.abs())
                 ),
-- 
2.43.0


From 716e1b9214cfe3ae5b97a5adbabdba989191149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 12/19] fix: Polynomial::with_zeroth works for order zero

An order-0 polynomial has no other terms, so indexing the first one panicked.
---
 src/basis/polynomial/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/polynomial/mod.rs b/src/basis/polynomial/mod.rs
index 1600382..71bd49c 100644
--- a/src/basis/polynomial/mod.rs
+++ b/src/basis/polynomial/mod.rs
@@ -54,7 +54,7 @@ impl Polynomial {
     }
 
     pub fn with_zeroth(mut self) -> Self {
-        self.exponents.push(vec![0; self.exponents[0].len()]);
+        self.exponents.push(vec![0; self.exponents.first().map_or(0, |e| e.len())]);
         self
     }
 
-- 
2.43.0


From f7d9f47e5f188463c44703c2f9884c69f5e59532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 13/19] fix: the Matern 5/2 kernel uses sqrt(5)

With sqrt(3) the value exceeds the variance for small distances.
---
 src/basis/kernels/stationary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/kernels/stationary.rs b/src/basis/kernels/stationary.rs
index 4f0f5e9..08f650a 100644
--- a/src/basis/kernels/stationary.rs
+++ b/src/basis/kernels/stationary.rs
@@ -83,7 +83,7 @@ stationary_kernel!(
     self,
     r,
     {
-        let sqrt_5 = 3.0f64.sqrt();
+        let sqrt_5 = 5.0f64.sqrt();
 
         self.variance * (1.0 + sqrt_5 * r + 5.0 / 3.0 * r * r) * (-sqrt_5 * r).exp()
     }
-- 
2.43.0


From 52d46e753706b7e022380ef8cf71f996915ef063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 14/19] fix: a non-ARD kernel applies its lengthscale to every
 dimension

The zip with a single lengthscale dropped all coordinates but the first.
---
 src/basis/kernels/rational_quadratic.rs | 2 +-
 src/basis/kernels/stationary.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basis/kernels/rational_quadratic.rs b/src/basis/kernels/rational_quadratic.rs
index 21678c3..c216d11 100644
--- a/src/basis/kernels/rational_quadratic.rs
+++ b/src/basis/kernels/rational_quadratic.rs
@@ -47,7 +47,7 @@ impl super::Kernel<&[f64]> for RationalQuadratic {
             .iter()
             .zip(y.iter())
             .map(|(x, y)| x - y)
-            .zip(self.lengthscales.iter())
+            .zip(self.lengthscales.iter().cycle())
             .map(|(d, l)| d / l)
             .fold(0.0, |acc, z| acc + z * z)
             .sqrt();
diff --git a/src/basis/kernels/stationary.rs b/src/basis/kernels/stationary.rs
index 08f650a..edc2f5c 100644
--- a/src/basis/kernels/stationary.rs
+++ b/src/basis/kernels/stationary.rs
@@ -42,7 +42,7 @@ macro_rules! stationary_kernel {
                     .into_iter()
                     .zip(y.into_iter())
                     .map(|(x, y)| x - y)
-                    .zip($self.lengthscales.iter())
+                    .zip($self.lengthscales.iter().cycle())
                     .map(|(d, l)| d / l)
                     .fold(0.0f64, |acc, z| acc + z * z)
                     .sqrt())
-- 
2.43.0


From 570f5492ddf22eae6263d73a7bcd9e70a4324569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 15/19] fix: NAG's look-ahead step follows the scaled gradient

It added momentum * features regardless of the error and the learning rate, so
weights moved even when the error was zero, and in the wrong direction when it
was negative. The step is now lr * (g + momentum * velocity).
---
 src/optim/nesterov.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optim/nesterov.rs b/src/optim/nesterov.rs
index 04e3080..13d2a0b 100644
--- a/src/optim/nesterov.rs
+++ b/src/optim/nesterov.rs
@@ -51,8 +51,8 @@ impl Optimiser<Features> for NAG {
             }
         }
         {
-            weights.scaled_add(lr, &self.velocity);
-            features.scaled_addto(m, weights);
+            weights.scaled_add(lr * m, &self.velocity);
+            features.scaled_addto(lr * scale_factor, weights);
         }
         Ok(())
     }
-- 
2.43.0


From 3f41f421ca6f5748357b511ca33e6383cbe27a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 16/19] fix: Adam and AdaMax bias correction starts at beta^1

The running products started at beta and were multiplied before first use, so
step t was corrected with beta^(t+1) instead of beta^t.
---
 src/optim/adam.rs   | 4 ++--
 src/optim/adamax.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optim/adam.rs b/src/optim/adam.rs
index 8ecf17e..3c92644 100644
--- a/src/optim/adam.rs
+++ b/src/optim/adam.rs
@@ -30,10 +30,10 @@ impl Adam {
     pub fn new(n_params: usize, learning_rate: f64, beta1: f64, beta2: f64) -> Self {
         Adam {
             beta1,
-            beta1_prod: beta1,
+            beta1_prod: 1.0,
 
             beta2,
-            beta2_prod: beta2,
+            beta2_prod: 1.0,
 
             learning_rate,
 
diff --git a/src/optim/adamax.rs b/src/optim/adamax.rs
index 9910479..832882d 100644
--- a/src/optim/adamax.rs
+++ b/src/optim/adamax.rs
@@ -29,7 +29,7 @@ impl AdaMax {
     pub fn new(n_params: usize, learning_rate: f64, beta1: f64, beta2: f64) -> Self {
         AdaMax {
             beta1,
-            beta1_prod: beta1,
+            beta1_prod: 1.0,
 
             beta2,
 
-- 
2.43.0


From 23631db3e8ca96c70ccc23714377c7e790c5aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 17/19] fix: resetting Adam and AdaMax restarts the bias
 correction

The moments were cleared but the running beta products were kept, so the steps
after a reset were not those of a fresh optimiser.
---
 src/optim/adam.rs   | 2 ++
 src/optim/adamax.rs | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/optim/adam.rs b/src/optim/adam.rs
index 3c92644..75b37cd 100644
--- a/src/optim/adam.rs
+++ b/src/optim/adam.rs
@@ -100,6 +100,8 @@ impl Optimiser<Features> for Adam {
     }
 
     fn reset(&mut self) {
+        self.beta1_prod = 1.0;
+        self.beta2_prod = 1.0;
         self.exp_avg.fill(0.0);
         self.exp_avg_sq.fill(0.0);
     }
diff --git a/src/optim/adamax.rs b/src/optim/adamax.rs
index 832882d..441e4f6 100644
--- a/src/optim/adamax.rs
+++ b/src/optim/adamax.rs
@@ -93,6 +93,7 @@ impl Optimiser<Features> for AdaMax {
     }
 
     fn reset(&mut self) {
+        self.beta1_prod = 1.0;
         self.exp_avg.fill(0.0);
         self.exp_inf.fill(0.0);
     }
-- 
2.43.0


From cc247106289016a5ae8c3132834b84fda89859aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 18/19] fix: tiles around the origin have the same width as all
 others

Integer division truncates towards zero, which merged the two tiles on either
side of the origin in every dimension.
---
 src/basis/tile_coding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/tile_coding.rs b/src/basis/tile_coding.rs
index 9145c98..202d660 100644
--- a/src/basis/tile_coding.rs
+++ b/src/basis/tile_coding.rs
@@ -28,7 +28,7 @@ fn hash_state<'a, H: Hasher + 'a>(
         for (i, s) in state.iter().enumerate() {
             let offset = t + i as isize * tx2;
 
-            hasher.write_isize((s + offset) / n_tilings as isize)
+            hasher.write_isize((s + offset).div_euclid(n_tilings as isize))
         }
 
         hasher.finish() as usize % memory_size
-- 
2.43.0


From 43fb9273a33acec702a646600418c5e907e40bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 19/19] fix: hash every tiling independently in TileCoding

One hasher was carried through all tilings, so the tile of tiling t also
depended on the tiles of tilings 0..t and inputs that share a tile did not share
its feature.
---
 src/basis/tile_coding.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/basis/tile_coding.rs b/src/basis/tile_coding.rs
index 202d660..0a9467c 100644
--- a/src/basis/tile_coding.rs
+++ b/src/basis/tile_coding.rs
@@ -12,8 +12,8 @@ where I: IntoIterator<Item = &'a f64> {
         .collect()
 }
 
-fn hash_state<'a, H: Hasher + 'a>(
-    mut hasher: H,
+fn hash_state<'a, H: BuildHasher>(
+    hasher_builder: &'a H,
     state: &'a [isize],
     n_tilings: usize,
     memory_size: usize,
@@ -23,6 +23,8 @@ fn hash_state<'a, H: Hasher + 'a>(
         let t = t as isize;
         let tx2 = t * 2;
 
+        let mut hasher = hasher_builder.build_hasher();
+
         hasher.write_isize(t);
 
         for (i, s) in state.iter().enumerate() {
@@ -75,7 +77,7 @@ where
     fn project(&self, input: T) -> Result<Features> {
         let state = bin_state(input, self.n_tilings);
         let hash = hash_state(
-            self.hasher_builder.build_hasher(),
+            &self.hasher_builder,
             &state,
             self.n_tilings,
             self.memory_size,
@@ -97,7 +99,7 @@ where
         check_index!(index < self.memory_size => {
             let state = bin_state(input, self.n_tilings);
             let mut hash = hash_state(
-                self.hasher_builder.build_hasher(),
+                &self.hasher_builder,
                 &state,
                 self.n_tilings,
                 self.memory_size
-- 
2.43.0

