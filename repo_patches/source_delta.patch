From 5082abfd7c19f3294a53c754f6031d4a4e832758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 1/8] fix: UnionFind::join must link the roots, not the
 elements themselves

---
 src/data_structure/union_find.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_structure/union_find.rs b/src/data_structure/union_find.rs
index cfbf111..d141902 100644
--- a/src/data_structure/union_find.rs
+++ b/src/data_structure/union_find.rs
@@ -35,11 +35,11 @@ impl UnionFind {
         if fx == fy {
             return false;
         }
-        if self.sz[x] > self.sz[y] {
+        if self.sz[fx] > self.sz[fy] {
             std::mem::swap(&mut fx, &mut fy);
         }
-        self.fa[x] = y;
-        self.sz[y] += self.sz[x];
+        self.fa[fx] = fy;
+        self.sz[fy] += self.sz[fx];
         true
     }
 
-- 
2.43.0


From dae9c6411a9d65969cce198c10fb2916aa2d3eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 2/8] fix: FenwickTree::partition_point underflows on an empty
 tree

---
 src/data_structure/fenwick_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_structure/fenwick_tree.rs b/src/data_structure/fenwick_tree.rs
index 607548c..9e71b34 100644
--- a/src/data_structure/fenwick_tree.rs
+++ b/src/data_structure/fenwick_tree.rs
@@ -100,7 +100,7 @@ where
     {
         let mut pos = 0;
         let mut sum: T = Default::default();
-        for i in (0..=(usize::BITS - 1 - self.n.leading_zeros())).rev() {
+        for i in (0..(usize::BITS - self.n.leading_zeros())).rev() {
             let next = pos + (1 << i);
             if next <= self.n && pred(&(sum.clone() + self.ary[next - 1].clone())) {
                 sum += self.ary[next - 1].clone();
-- 
2.43.0


From 5d0041aaf2c03420fe4f7b7505935779a8a7506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 3/8] fix: MinHeap::into_sorted_vec must return ascending order

---
 src/data_structure/min_heap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_structure/min_heap.rs b/src/data_structure/min_heap.rs
index d3a227f..215313b 100644
--- a/src/data_structure/min_heap.rs
+++ b/src/data_structure/min_heap.rs
@@ -50,6 +50,6 @@ where
     }
 
     pub fn into_sorted_vec(self) -> Vec<T> {
-        self.0.into_sorted_vec().into_iter().map(|x| x.0).collect()
+        self.0.into_sorted_vec().into_iter().rev().map(|x| x.0).collect()
     }
 }
-- 
2.43.0


From 3d63579b398a06fc58d5d2295b6b846324b9bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 4/8] fix: lcm must not overflow when the result fits the type

---
 src/math/number_theory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/number_theory.rs b/src/math/number_theory.rs
index 6beb0ce..ad2d918 100644
--- a/src/math/number_theory.rs
+++ b/src/math/number_theory.rs
@@ -10,7 +10,7 @@ pub fn gcd<T: Integral>(mut a: T, mut b: T) -> T {
 }
 
 pub fn lcm<T: Integral>(a: T, b: T) -> T {
-    a * b / gcd(a, b)
+    a / gcd(a, b) * b
 }
 
 /// returns a solution (x, y, g) to `a * x + b * y = gcd(a, b) = g`
-- 
2.43.0


From b693481f1ca5c6e7a6f0815e0da2d14d41d9b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 5/8] fix: ex_crt returned wrong residues or overflowed for
 negative or large coefficients

---
 src/math/number_theory.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/math/number_theory.rs b/src/math/number_theory.rs
index ad2d918..c8c3989 100644
--- a/src/math/number_theory.rs
+++ b/src/math/number_theory.rs
@@ -30,18 +30,19 @@ pub fn ex_gcd<T: Integral>(a: T, b: T) -> (T, T, T) {
 /// general form of `ans + k * lcm`, or `None` if the solution doesn't exist.
 pub fn ex_crt(a: &Vec<i64>, b: &Vec<i64>, m: &Vec<i64>) -> Option<(i64, i64)> {
     let n = a.len();
-    let (mut x, mut lcm) = (0i64, 1i64);
+    let (mut x, mut lcm) = (0i128, 1i128);
     for i in 0..n {
-        let (a_, mut b_, mut m_) = (a[i] * lcm, b[i] - a[i] * x, m[i]);
+        let mut m_ = m[i] as i128;
+        let a_ = (a[i] as i128 * (lcm % m_)).rem_euclid(m_);
+        let mut b_ = (b[i] as i128 - a[i] as i128 * (x % m_)).rem_euclid(m_);
         let (y, _, g) = ex_gcd(a_, m_);
         if b_ % g != 0 {
             return None;
         }
         b_ /= g;
         m_ /= g;
-        x += lcm * (y as i128 * b_ as i128 % m_ as i128) as i64;
+        x += lcm * (y * b_).rem_euclid(m_);
         lcm *= m_;
     }
-    x = (x + lcm) % lcm;
-    Some((x, lcm))
+    Some((x as i64, lcm as i64))
 }
-- 
2.43.0


From dec6a429e81cfcd1a80917522314b40b1c975174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 6/8] fix: pow and product must return 0 for modulus 1

---
 src/misc/modint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/misc/modint.rs b/src/misc/modint.rs
index 1ddf641..74a19e3 100644
--- a/src/misc/modint.rs
+++ b/src/misc/modint.rs
@@ -674,7 +674,7 @@ pub trait ModIntBase:
     #[inline]
     fn pow(self, mut n: u64) -> Self {
         let mut x = self;
-        let mut r = Self::raw(1);
+        let mut r = Self::new(1u32);
         while n > 0 {
             if n & 1 == 1 {
                 r *= x;
@@ -1044,9 +1044,9 @@ macro_rules! impl_folding {
 
 impl_folding! {
     impl<M: Modulus> Sum<_>     for StaticModInt<M>  { fn sum(_)     -> _ { _(Self::raw(0), Add::add) } }
-    impl<M: Modulus> Product<_> for StaticModInt<M>  { fn product(_) -> _ { _(Self::raw(1), Mul::mul) } }
+    impl<M: Modulus> Product<_> for StaticModInt<M>  { fn product(_) -> _ { _(Self::new(1u32), Mul::mul) } }
     impl<I: Id     > Sum<_>     for DynamicModInt<I> { fn sum(_)     -> _ { _(Self::raw(0), Add::add) } }
-    impl<I: Id     > Product<_> for DynamicModInt<I> { fn product(_) -> _ { _(Self::raw(1), Mul::mul) } }
+    impl<I: Id     > Product<_> for DynamicModInt<I> { fn product(_) -> _ { _(Self::new(1u32), Mul::mul) } }
 }
 
 #[cfg(test)]
-- 
2.43.0


From c52872595b580943659e788d4e2407aa39336619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 7/8] Verification hook: expose crate-private number theory
 under cfg(vp_hooks)

---
 src/math/internal_math.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/math/internal_math.rs b/src/math/internal_math.rs
index 8d752c4..8c8d4d5 100644
--- a/src/math/internal_math.rs
+++ b/src/math/internal_math.rs
@@ -235,6 +235,30 @@ pub(crate) fn primitive_root(m: i32) -> i32 {
 // omitted
 // template <int m> constexpr int primitive_root = primitive_root_constexpr(m);
 
+// Verification hook: public access to the crate-private functions above.
+#[allow(unexpected_cfgs)]
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    pub fn safe_mod(x: i64, m: i64) -> i64 {
+        super::safe_mod(x, m)
+    }
+    pub fn mul_mod(a: u32, b: u32, m: u32) -> u32 {
+        super::Barrett::new(m).mul(a, b)
+    }
+    pub fn pow_mod(x: i64, n: i64, m: i32) -> i64 {
+        super::pow_mod(x, n, m)
+    }
+    pub fn is_prime(n: i32) -> bool {
+        super::is_prime(n)
+    }
+    pub fn inv_gcd(a: i64, b: i64) -> (i64, i64) {
+        super::inv_gcd(a, b)
+    }
+    pub fn primitive_root(m: i32) -> i32 {
+        super::primitive_root(m)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     #![allow(clippy::unreadable_literal)]
-- 
2.43.0


From 8a378be8fe29237c53c24e7f90d0782ef87b47d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:22 +0000
Subject: [PATCH 8/8] fix: let de!() without arguments compile in release
 builds

---
 src/misc/debug.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/misc/debug.rs b/src/misc/debug.rs
index a793711..17ebe50 100644
--- a/src/misc/debug.rs
+++ b/src/misc/debug.rs
@@ -26,5 +26,6 @@ macro_rules! de {
 #[cfg(not(debug_assertions))]
 #[macro_export]
 macro_rules! de {
+    () => { };
     ($($val:expr),+ $(,)?) => { };
 }
-- 
2.43.0

