From 5fe8b3865f9c23b7ad57030ae614d3c5ec94d0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 01/49] fix: MinMaxHeap::popTop broke the heap order after
 swapping with a child

---
 common/include/rofl/common/min_max_heap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/min_max_heap.h b/common/include/rofl/common/min_max_heap.h
index 3c58787..0bcfc10 100644
--- a/common/include/rofl/common/min_max_heap.h
+++ b/common/include/rofl/common/min_max_heap.h
@@ -368,7 +368,7 @@ namespace rofl {
                     icurr = igrand;
                 } else if (ichild < data_.size() && cmp_(data_[ichild], data_[icurr])) {
                     std::swap(data_[icurr], data_[ichild]);
-                    icurr = ichild;
+                    icurr = data_.size();
                 } else {
                     icurr = data_.size();
                 }
-- 
2.43.0


From b6a6f8133a5c68ba90054cf91e92981f754bba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:31 +0000
Subject: [PATCH 02/49] fix: MinMaxHeap::nextTop ignored the children of the
 root with 4 or 5 items

---
 common/include/rofl/common/min_max_heap.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/include/rofl/common/min_max_heap.h b/common/include/rofl/common/min_max_heap.h
index 0bcfc10..f954466 100644
--- a/common/include/rofl/common/min_max_heap.h
+++ b/common/include/rofl/common/min_max_heap.h
@@ -133,11 +133,14 @@ namespace rofl {
             } else if (data_.size() < 4) {
                 return data_[childMin(0)];
             } else {
-                return data_[grandchildMin(0)];
+                // with few items a child of the root may have no children of its own
+                size_t ichild = childMin(0);
+                size_t igrand = grandchildMin(0);
+                return data_[cmp_(data_[ichild], data_[igrand]) ? ichild : igrand];
             }
         }
 
-        /** Returns the next minimum element.
+        /** Returns the next maximum element.
          */
         const Value& nextBottom() const {
             ROFL_ASSERT(!data_.empty());
-- 
2.43.0


From b4b4fa8b6d9558a7e94acf6ae9ec9bcb00296315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:34 +0000
Subject: [PATCH 03/49] fix: MinMaxHeap::nextBottom returned the smaller child
 of the root, not the second maximum

---
 common/include/rofl/common/min_max_heap.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/common/include/rofl/common/min_max_heap.h b/common/include/rofl/common/min_max_heap.h
index f954466..b48fc33 100644
--- a/common/include/rofl/common/min_max_heap.h
+++ b/common/include/rofl/common/min_max_heap.h
@@ -147,7 +147,18 @@ namespace rofl {
             if (data_.size() < 3) {
                 return data_[0];
             } else {
-                return data_[childMin(0)];
+                // either the other child of the root or the maximum below the largest one
+                size_t imax = childMax(0);
+                size_t inext = childLeft(0) + childRight(0) - imax;
+                size_t ichild = childMax(imax);
+                if (ichild < data_.size() && cmp_(data_[inext], data_[ichild])) {
+                    inext = ichild;
+                }
+                size_t igrand = grandchildMax(imax);
+                if (igrand < data_.size() && cmp_(data_[inext], data_[igrand])) {
+                    inext = igrand;
+                }
+                return data_[inext];
             }
         }
 
-- 
2.43.0


From 27d2ec3907e3e3f04c6e0c006fae313e1624a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:37 +0000
Subject: [PATCH 04/49] fix: DisjointSet::makeSet did not count the new set

---
 common/src/disjoint_set.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/src/disjoint_set.cpp b/common/src/disjoint_set.cpp
index c12ceea..ad84dc3 100644
--- a/common/src/disjoint_set.cpp
+++ b/common/src/disjoint_set.cpp
@@ -53,6 +53,7 @@ namespace rofl {
         n.rank = 0;
         n.size = 1;
         nodes_.push_back(n);
+        setNum_++;
         return n.parent;
     }
 
-- 
2.43.0


From 5e6a25cd1831485a86cbc1b80dfcc0dbda71738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:37 +0000
Subject: [PATCH 05/49] fix: DisjointSet::join and size accessed nodes out of
 range with an invalid id

---
 common/include/rofl/common/disjoint_set.h | 1 +
 common/src/disjoint_set.cpp               | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/common/include/rofl/common/disjoint_set.h b/common/include/rofl/common/disjoint_set.h
index 31296b6..c3f883d 100644
--- a/common/include/rofl/common/disjoint_set.h
+++ b/common/include/rofl/common/disjoint_set.h
@@ -82,6 +82,7 @@ namespace rofl {
          */
         size_t size(int n) {
             id_type root = find(n);
+            if (root >= (id_type) nodes_.size()) return 0;
             return nodes_[root].size;
         }
 
diff --git a/common/src/disjoint_set.cpp b/common/src/disjoint_set.cpp
index ad84dc3..c9215e7 100644
--- a/common/src/disjoint_set.cpp
+++ b/common/src/disjoint_set.cpp
@@ -76,6 +76,8 @@ namespace rofl {
     DisjointSet::id_type DisjointSet::join(id_type n1, id_type n2) {
         id_type root1 = find(n1);
         id_type root2 = find(n2);
+        // find() returns the number of nodes when the id is invalid
+        if (root1 >= (id_type) nodes_.size() || root2 >= (id_type) nodes_.size()) return nodes_.size();
         // If n1 and n2 are already in the same set, there is no join to do
         if (root1 == root2) return nodes_.size();
 
-- 
2.43.0


From f50d3a8de12ae153bd363480557406f3e6f4c4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:44 +0000
Subject: [PATCH 06/49] fix: LabelSet comparison ignored the size of the other
 set

---
 common/src/label_set.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/label_set.cpp b/common/src/label_set.cpp
index be5586b..d70243a 100644
--- a/common/src/label_set.cpp
+++ b/common/src/label_set.cpp
@@ -54,11 +54,11 @@ namespace rofl {
     }
     
     bool LabelSet::operator==(const LabelSet& ls) const {
-        return std::equal(labels_.begin(), labels_.end(), ls.labels_.begin());
+        return std::equal(labels_.begin(), labels_.end(), ls.labels_.begin(), ls.labels_.end());
     }
     
     bool LabelSet::operator!=(const LabelSet& ls) const {
-        return !std::equal(labels_.begin(), labels_.end(), ls.labels_.begin());
+        return !std::equal(labels_.begin(), labels_.end(), ls.labels_.begin(), ls.labels_.end());
     }
 
     bool LabelSet::insert(Label label) {
-- 
2.43.0


From ebd16f0606b1111a753f8f6d582fb4cd3057a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:32 +0000
Subject: [PATCH 07/49] fix: IntervalIndices::size counted cells of an empty
 interval with negative dimensions

---
 common/include/rofl/common/interval_indices.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/include/rofl/common/interval_indices.h b/common/include/rofl/common/interval_indices.h
index 4e5e78f..2ea2feb 100644
--- a/common/include/rofl/common/interval_indices.h
+++ b/common/include/rofl/common/interval_indices.h
@@ -351,6 +351,9 @@ namespace rofl {
          * Returns the number of indices items included in the interval.
          */
         size_t size() const {
+            if (empty()) {
+                return 0;
+            }
             size_t s = 1;
             for (int d = 0; d < Dim; ++d) {
                 s *= dimensions_[d];
-- 
2.43.0


From d95871eedf3b94b13ccb8db09f9947d0603b9f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:03 +0000
Subject: [PATCH 08/49] fix: BoustrophedonIndexer jumped between cells with 3
 or more dimensions of odd size

---
 common/include/rofl/common/interval_indices.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/rofl/common/interval_indices.h b/common/include/rofl/common/interval_indices.h
index 2ea2feb..11656b9 100644
--- a/common/include/rofl/common/interval_indices.h
+++ b/common/include/rofl/common/interval_indices.h
@@ -143,12 +143,12 @@ namespace rofl {
                 Index odd = 0;
                 for (int d = Dim - 1; d >= 0; --d) {
                     //ROFL_VAR3(d, indices[d], odd);
+                    // the direction is reversed after an odd number of sweeps, counted over all the outer dimensions
+                    Index oddInner = (indices[d] + dimensions[d] * odd) % 2;
                     if (odd) {
-                        odd = indices[d] % 2;
                         indices[d] = dimensions[d] - indices[d] - 1;
-                    } else {
-                        odd = indices[d] % 2;
                     }
+                    odd = oddInner;
                     indices[d] += minval[d];
                 }
                 //ROFL_MSG("indices computed " << indices);
-- 
2.43.0


From cf5ba38365622034bcc43936d900c94a56bfd6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:55 +0000
Subject: [PATCH 09/49] fix: PeakFinderD never tested the first cell of the
 domain

---
 common/include/rofl/common/peak_finder_d.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/common/include/rofl/common/peak_finder_d.h b/common/include/rofl/common/peak_finder_d.h
index a5c6bfd..516ada0 100644
--- a/common/include/rofl/common/peak_finder_d.h
+++ b/common/include/rofl/common/peak_finder_d.h
@@ -148,7 +148,6 @@ namespace rofl {
             }
             //ROFL_VAR4(*domainIt, windowInterval, novelInterval, windowItems.size());
             indicesPrev = *domainIt;
-            ++domainIt;
 
             // Moves the window on each cell of domain in boustrophedon order
             for (; domainIt != domainEnd; ++domainIt) {
-- 
2.43.0


From 87db214658767466cd595a4ef8e4ad6d49745b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:55 +0000
Subject: [PATCH 10/49] fix: PeakFinderD missed peaks because of items left
 from other windows and repeated items

---
 common/include/rofl/common/peak_finder_d.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/common/include/rofl/common/peak_finder_d.h b/common/include/rofl/common/peak_finder_d.h
index 516ada0..ab4f8f8 100644
--- a/common/include/rofl/common/peak_finder_d.h
+++ b/common/include/rofl/common/peak_finder_d.h
@@ -174,13 +174,18 @@ namespace rofl {
                     if (!windowItems.empty() && !comp_(map(windowItems.top()), map(*domainIt))) {
                         //ROFL_VAR4(outIdx(*domainIt), map(*domainIt), outIdx(windowItems.top()), map(windowItems.top()));
                         //ROFL_VAR3(outIdx(windowItems.nextTop()), map(windowItems.nextTop()), comp_(map(*domainIt), map(windowItems.nextTop())));
-                        //Indices curTop = windowItems.top();
-                        //windowItems.popTop();
-                        if (comp_(map(*domainIt), map(windowItems.nextTop()))) {
+                        // The top item is compared with the next one, skipping the items that
+                        // already left the window and the copies of the top item itself.
+                        Indices curTop = windowItems.top();
+                        windowItems.popTop();
+                        while (!windowItems.empty() && (!windowInterval.inside(windowItems.top()) || windowItems.top() == curTop)) {
+                            windowItems.popTop();
+                        }
+                        if (windowItems.empty() || comp_(map(*domainIt), map(windowItems.top()))) {
                             //insertMax = *domainIt;
                             maxima.push(*domainIt);
                         }
-                        //windowItems.push(curTop);
+                        windowItems.push(curTop);
                     }
                 }
                 indicesPrev = *domainIt;
-- 
2.43.0


From d9ade8e8fb4fa22512639433bbfdec75f8baea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:13 +0000
Subject: [PATCH 11/49] fix: FloatTraits<double> declared 8 exponent bits
 instead of 11

---
 common/include/rofl/common/numeric_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/numeric_traits.h b/common/include/rofl/common/numeric_traits.h
index b620365..5d0aa32 100644
--- a/common/include/rofl/common/numeric_traits.h
+++ b/common/include/rofl/common/numeric_traits.h
@@ -437,7 +437,7 @@ struct FloatTraits<double> {
 
     static const int BIT_NUM = 64;
     static const int MANTISSA_BITS = 52;
-    static const int EXPONENT_BITS = 8;
+    static const int EXPONENT_BITS = 11;
     static const int EXPONENT_BIAS = 1023;
 
     static constexpr IntegerType MANTISSA_IMPLICIT_BIT = (IntegerType)1 << MANTISSA_BITS;
-- 
2.43.0


From 48fbbca6892f6897a59329480b5d23b3a5e306f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:13 +0000
Subject: [PATCH 12/49] fix: IntegerTraits<int64_t>::log2Mod used the 8 bit
 leading zeros count

---
 common/include/rofl/common/numeric_traits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/rofl/common/numeric_traits.h b/common/include/rofl/common/numeric_traits.h
index 5d0aa32..81a61e6 100644
--- a/common/include/rofl/common/numeric_traits.h
+++ b/common/include/rofl/common/numeric_traits.h
@@ -258,9 +258,9 @@ struct IntegerTraits<int64_t> {
 
     static IntegerType log2Mod(const IntegerType& i) {
         if (i > 0)
-            return (BIT_NUM - 1 - nlz8(i));
+            return (BIT_NUM - 1 - nlz64(i));
         else if (i < 0)
-            return (BIT_NUM - 1 - nlz8(-i));
+            return (BIT_NUM - 1 - nlz64(-i));
         else
             return 0;  // arbitrary output for invalid argument 0
     }
-- 
2.43.0


From 452f9d0a6851e3d1ef08834bdb7501f74cfec5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:13 +0000
Subject: [PATCH 13/49] fix: Morton comparison of floats was not an order in
 presence of negative zeros

---
 common/include/rofl/common/morton_sort.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index da42b0d..15f1e8a 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -156,6 +156,9 @@ F xorFloat(const F& fin1,
 
     FT::decompose(f1, fm1, fe1, fs1);
     FT::decompose(f2, fm2, fe2, fs2);
+    // Negative zero is the same number as zero
+    fs1 = fs1 && (f1 != 0);
+    fs2 = fs2 && (f2 != 0);
 
     // If the input numbers have different signs, then the returned value
     // is the infinity.
-- 
2.43.0


From 2d51bc61175c738758d51b238b7a76bead139229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:13 +0000
Subject: [PATCH 14/49] fix: Morton comparison of negative floats with
 different exponents was not an order

---
 common/include/rofl/common/morton_sort.h | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index 15f1e8a..591cf5e 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -173,27 +173,31 @@ F xorFloat(const F& fin1,
         return FT::compose(mantissaDiff, exponentDiff, false);
     }
 
-    // Adding the implicit most significant bit to the two mantissas
-    fm1 = fm1 | FT::MANTISSA_IMPLICIT_BIT;
+    // Adding the implicit most significant bit to the two mantissas and one
+    // guard bit
+    fm1 = (fm1 | FT::MANTISSA_IMPLICIT_BIT) << 1;
+    fm2 = (fm2 | FT::MANTISSA_IMPLICIT_BIT) << 1;
+    // If f1 and f2 are both negatives, the bits that differ in their two's
+    // complements -m = ~(m - 1) are the ones that differ in m - 1 (subtracted
+    // before alignment, when no bit has been lost yet)
+    if (fs1) {
+        fm1 = fm1 - 1;
+        fm2 = fm2 - 1;
+    }
     if (fe1 < fe2 + FT::BIT_NUM) {
-        fm2 = (fm2 | FT::MANTISSA_IMPLICIT_BIT) >> (fe1 - fe2);
+        fm2 = fm2 >> (fe1 - fe2);
     } else {
         fm2 = 0;
     }
-    // Changes the mantissas sign, if f1 and f2 are both negatives
-    if (fs1) {
-        fm1 = -fm1;
-        fm2 = -fm2;
-    }
     mantissaDiff = fm1 ^ fm2;
 
     if (mantissaDiff == 0) {
         exponentDiff = -FT::EXPONENT_BIAS;
         return FT::compose(mantissaDiff, exponentDiff, false);
     }
-    msbPos = FT::MANTISSA_BITS - rofl::IntegerTraits<IntegerType>::log2Mod(mantissaDiff);
+    msbPos = FT::MANTISSA_BITS + 1 - rofl::IntegerTraits<IntegerType>::log2Mod(mantissaDiff);
     exponentDiff = fe1 - msbPos;
-    mantissaDiff = (mantissaDiff << msbPos) & FT::MANTISSA_MASK;
+    mantissaDiff = ((mantissaDiff << msbPos) >> 1) & FT::MANTISSA_MASK;
 
     return FT::compose(mantissaDiff, exponentDiff, false);
 }
-- 
2.43.0


From d38abe0a4f5e9c6c03933e5c64a3523ca05bf423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:55 +0000
Subject: [PATCH 15/49] fix: intervalPow2Int shifted 32 bit integers for any
 type and level, missed the unsigned middle value

---
 common/include/rofl/common/morton_sort.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index 591cf5e..a71f6a2 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -112,10 +112,10 @@ int intervalPow2Int(const I& i1, const I& i2, I& low, I& mid, I& upp) {
     //   mid         00001000  -> 8
     level = IT::BIT_NUM - IT::nlz(IT::removeSign(i1) ^ IT::removeSign(i2));
     if (level < IT::BIT_NUM) {
-        intervMask = (1 << level) - 1;
+        intervMask = ((UnsignedType)1 << level) - 1;
         low = i1 & (~intervMask);
         upp = (low | intervMask);
-        mid = low | (1 << (level - 1));
+        mid = level > 0 ? (low | ((UnsignedType)1 << (level - 1))) : low;
         // ROFL_VAR1(level);
         // ROFL_MSG("i1          " << std::bitset<IT::BIT_NUM>(i1));
         // ROFL_MSG("i2          " << std::bitset<IT::BIT_NUM>(i2));
@@ -128,7 +128,7 @@ int intervalPow2Int(const I& i1, const I& i2, I& low, I& mid, I& upp) {
         intervMask = ~0;
         low = std::numeric_limits<I>::min();
         upp = std::numeric_limits<I>::max();
-        mid = (upp + low) / 2;
+        mid = upp / 2 + low / 2 + 1;
     }
     return (int)level;
 }
-- 
2.43.0


From e8b5ce23825e5633f6d4ee1e32731abb1cb9c7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:55 +0000
Subject: [PATCH 16/49] fix: intervalPow2Float shifted 32 bit integers with
 double precision and equal values

---
 common/include/rofl/common/morton_sort.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index a71f6a2..8a7183f 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -270,10 +270,10 @@ int intervalPow2Float(const F& fin1, const F& fin2, F& low, F& mid, F& upp) {
         level = IT::BIT_NUM - IT::nlz(fm2);
     }
     ROFL_VAR4(fe1, fe2, fe12, level);
-    intervMask = (1 << level) - 1;
+    intervMask = ((IntegerType)1 << level) - 1;
     mlow = fm2 & (~intervMask);
     mupp = (mlow | intervMask);
-    mmid = mlow | (1 << (level - 1));
+    mmid = level > 0 ? (mlow | ((IntegerType)1 << (level - 1))) : mlow;
     if (mlow != 0) {
         low = FT::compose(mlow ^ FT::MANTISSA_IMPLICIT_BIT, fe2, fs2);
     } else {
-- 
2.43.0


From e9a19d77eb274a083b824c464697fd57768dd5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:33 +0000
Subject: [PATCH 17/49] fix: MortonTree::insert lost the id of the item when
 asked to keep it

---
 common/include/rofl/common/morton_tree.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/common/include/rofl/common/morton_tree.h b/common/include/rofl/common/morton_tree.h
index c2064fa..7c89d4c 100644
--- a/common/include/rofl/common/morton_tree.h
+++ b/common/include/rofl/common/morton_tree.h
@@ -175,9 +175,7 @@ class MortonTree {
     void insert(const Item& item, bool resetId = true) {
         Item itemCopy;
         std::copy(item.values, item.values + Dim, itemCopy.values);
-        if (resetId) {
-            itemCopy.id = items_.size();
-        }
+        itemCopy.id = resetId ? (int)items_.size() : item.id;
         items_.push_back(itemCopy);
         ordered_ = false;
     }
-- 
2.43.0


From 4a6d110be6176c509720aa0d23387efd16765a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:33 +0000
Subject: [PATCH 18/49] fix: MortonTree::searchInBox returned wrong items,
 stopped after 10 steps and read past the end

---
 common/include/rofl/common/morton_tree.h | 60 +++++-------------------
 1 file changed, 11 insertions(+), 49 deletions(-)

diff --git a/common/include/rofl/common/morton_tree.h b/common/include/rofl/common/morton_tree.h
index 7c89d4c..1608a36 100644
--- a/common/include/rofl/common/morton_tree.h
+++ b/common/include/rofl/common/morton_tree.h
@@ -253,60 +253,22 @@ class MortonTree {
     }
 
     void searchInBox(const Item& boxMin, const Item& boxMax, std::vector<ConstIterator>& items) {
-        using TreeIntervalQueue = std::deque<TreeInterval>;
-        TreeIntervalQueue queue;
-        TreeInterval cur, low, upp;
-        ConstIterator itLow, itMid, itUpp;
-
         if (!ordered_) {
             sort();
         }
 
-        ROFL_VAR2(boxMin.toString(), boxMax.toString());
-
-        for (auto it = std::begin(items_); it != std::end(items_); ++it) {
-            ROFL_VAR3(it->toString(), compareItems(*it, boxMin), compareItems(*it, boxMax));
-        }
-        cur.first = std::upper_bound(std::begin(items_), std::end(items_), boxMin, compareItems);
-        cur.second = std::lower_bound(std::begin(items_), std::end(items_), boxMax, compareItems);
-        queue.push_back(cur);
-
-        ROFL_MSG("initial interval " << cur.first->toString() << " : " << cur.second->toString());
-
-        int count = 0;
-        while (!queue.empty() && count < 10) {
-            cur = queue.back();
-            queue.pop_back();
-            std::cout << "\n---\nEXPLORING " << printInter(cur) << std::endl;
-            findTreeBucket(cur.first, cur.second, itLow, itMid, itUpp);
-            ROFL_MSG("splitting\n"
-                     << "  low " << printIt(itLow)
-                     << "  mid " << printIt(itMid)
-                     << "  upp " << printIt(itUpp));
-            if (cur.first == itLow && cur.second == itUpp) {
-                for (auto it = itLow; it != itUpp; ++it) {
-                    items.push_back(it);
-                }
-            } else {
-                low.first = cur.first;
-                low.second = itMid;
-                upp.first = itMid;
-                upp.second = cur.second;
-                // ROFL_VAR2(printInter(low), printInter(upp));
-                if (low.first != low.second) {
-                    ROFL_MSG("added LOW interval: " << printInter(low));
-                    queue.push_back(low);
-                } else {
-                    ROFL_MSG("discarted LOW interval: " << printInter(low));
-                }
-                if (upp.first != upp.second) {
-                    ROFL_MSG("added UPP interval: " << printInter(upp));
-                    queue.push_back(upp);
-                } else {
-                    ROFL_MSG("discarted UPP interval: " << printInter(upp));
-                }
+        // All the items inside the box are between boxMin and boxMax in Morton
+        // order, but the items in such interval may also be out of the box.
+        ConstIterator first = std::lower_bound(std::begin(items_), std::end(items_), boxMin, compareItems);
+        ConstIterator last = std::upper_bound(std::begin(items_), std::end(items_), boxMax, compareItems);
+        for (auto it = first; it < last; ++it) {
+            bool inside = true;
+            for (int d = 0; d < Dim && inside; ++d) {
+                inside = boxMin.values[d] <= it->values[d] && it->values[d] <= boxMax.values[d];
+            }
+            if (inside) {
+                items.push_back(it);
             }
-            count++;
         }
     }
 
-- 
2.43.0


From b45f94959bc77c35b9536f6df0ff082c78db095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:32 +0000
Subject: [PATCH 19/49] fix: ParamMap::adaptTildeInPaths erased items while
 iterating and missed paths with other tildes

The item under the iterator was erased and inserted again before
incrementing the iterator. Paths with a second "~" (e.g. "~/a~b") were not
expanded, "~user" lost its first letter, and an unset HOME was dereferenced.
---
 common/src/param_map.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/common/src/param_map.cpp b/common/src/param_map.cpp
index 11d738d..477d3a5 100644
--- a/common/src/param_map.cpp
+++ b/common/src/param_map.cpp
@@ -128,19 +128,26 @@ namespace rofl {
 
     void ParamMap::adaptTildeInPaths()
     {
+        const char* home = getenv("HOME");
+        if (home == nullptr)
+        {
+            std::cerr << __FILE__ << "," << __LINE__ << ": Error: environment variable HOME is not set" << std::endl;
+            return;
+        }
+        std::string homePath(home);
+        homePath += "/"; // getenv() return only /home/user -> need to add another
+        // std::cout << "homePath " << homePath << std::endl;
         for (auto it = table_.begin(); it != table_.end(); ++it)
         {
-            auto first = it->first;
             auto second = it->second;
             // std::cout << "second with tilde: " << second << std::endl;
-            std::string homePath = getenv("HOME");
-            homePath += "/"; // getenv() return only /home/user -> need to add another
-            // std::cout << "homePath " << homePath << std::endl;
-            if (second.rfind("~") == 0)
+            // only "~" and "~/..." refer to the home directory of the current user
+            if (second == "~" || second.compare(0, 2, "~/") == 0)
             {
                 second.replace(0, 2, homePath);
                 std::cout << "second WITHOUT tilde: " << second << std::endl;
-                setParam(first, second);
+                // the value is changed in place: setParam() would invalidate the iterator
+                it->second = second;
             }
         }
     }
-- 
2.43.0


From 1f099264c0f3703345ee7a332317f779869c2bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:14 +0000
Subject: [PATCH 20/49] fix: Profiler mean divided by the number of previous
 measurements

Welford's update divides by the count including the new measurement.
---
 common/src/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/profiler.cpp b/common/src/profiler.cpp
index 77122f3..4d4e120 100644
--- a/common/src/profiler.cpp
+++ b/common/src/profiler.cpp
@@ -31,7 +31,7 @@ namespace rofl {
         } else {
             // Computes mean value and variance with online Welford’s method 
             double timeAvgOld = it->second.timeAvg;
-            it->second.timeAvg += (time - timeAvgOld) / (double) it->second.count;
+            it->second.timeAvg += (time - timeAvgOld) / (double) (it->second.count + 1);
             it->second.timeVar += (time - it->second.timeAvg) * (time - timeAvgOld);
             if (time < it->second.timeMin) {
                 it->second.timeMin = time;
-- 
2.43.0


From f2312956fcbd9d1ea39e249dfc05db96fe4051b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:14 +0000
Subject: [PATCH 21/49] fix: Profiler variance was computed from the mean

---
 common/include/rofl/common/profiler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/profiler.h b/common/include/rofl/common/profiler.h
index f6a55d6..02c3031 100644
--- a/common/include/rofl/common/profiler.h
+++ b/common/include/rofl/common/profiler.h
@@ -53,7 +53,7 @@ namespace rofl {
 
             double getVariance() const {
                 if (count > 1) {
-                    return (timeAvg / (count - 1));
+                    return (timeVar / (count - 1));
                 } else {
                     return 0.0;
                 }
-- 
2.43.0


From 6787ccf12fc77dd6b5507c71cdd4b85a6818d020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:14 +0000
Subject: [PATCH 22/49] fix: ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE measured
 nothing

The timer was an unnamed temporary, destroyed before the scope to measure.
---
 common/include/rofl/common/profiler.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/include/rofl/common/profiler.h b/common/include/rofl/common/profiler.h
index 02c3031..257ba64 100644
--- a/common/include/rofl/common/profiler.h
+++ b/common/include/rofl/common/profiler.h
@@ -23,7 +23,9 @@
 #include <chrono>
 #include <rofl/common/macros.h>
 
-#define ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE rofl::ScopedTimer(ROFL_FILENAME(__FILE__) + "_" + __FUNCTION__ + "_" + ROFL_COMMON_STRING_LINE);
+#define ROFL_COMMON_PROFILER_DETAIL_CONCAT(X,Y) X##Y
+#define ROFL_COMMON_PROFILER_DETAIL_CONCAT_OP(X,Y) ROFL_COMMON_PROFILER_DETAIL_CONCAT(X,Y)
+#define ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE rofl::ScopedTimer ROFL_COMMON_PROFILER_DETAIL_CONCAT_OP(roflScopedTimer,__LINE__)(ROFL_FILENAME(__FILE__) + "_" + __FUNCTION__ + "_" + ROFL_COMMON_STRING_LINE);
 
 namespace rofl {
 
-- 
2.43.0


From cbe20fdda1163a938d4d612857fea83b5fa0e620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:19 +0000
Subject: [PATCH 23/49] fix: normalize360 and normalize180 returned values out
 of the documented interval

Angles slightly below a multiple of the period (e.g. -1e-20) gave the period
itself or a negative value; K_2PI had 12 digits only.
---
 common/include/rofl/common/functions.h |  2 +-
 common/src/functions.cpp               | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/common/include/rofl/common/functions.h b/common/include/rofl/common/functions.h
index 6fa8275..531dd5d 100755
--- a/common/include/rofl/common/functions.h
+++ b/common/include/rofl/common/functions.h
@@ -25,7 +25,7 @@
 
 namespace rofl {
 
-    const double K_2PI = 6.28318530718;
+    const double K_2PI = 2.0 * M_PI;
     const double PNEBI_ARG_MAX = 600.0;
     const double BIG_NUM = 1.0e+10;
     const double SMALL_NUM = 1.0e-10;
diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index bb9f57b..ebb0f7f 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -104,11 +104,17 @@ namespace rofl {
     }
     
     double normalize360(double angle) {
-        return (angle - K_2PI * floor(angle / K_2PI));
+        angle -= K_2PI * floor(angle / K_2PI);
+        // Rounding can lead slightly out of interval [0, 2*M_PI[
+        if (angle < 0.0) angle += K_2PI;
+        return (angle < K_2PI ? angle : 0.0);
     }
     
     double normalize180(double angle) {
-        return (angle - M_PI * floor(angle / M_PI));
+        angle -= M_PI * floor(angle / M_PI);
+        // Rounding can lead slightly out of interval [0, M_PI[
+        if (angle < 0.0) angle += M_PI;
+        return (angle < M_PI ? angle : 0.0);
     }
 
     double evaluateFourier(const std::vector<double>& coeffs, double theta) {
-- 
2.43.0


From e83583e4826cac6f1e2b5e9684072fd47a84b9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:32 +0000
Subject: [PATCH 24/49] fix: evaluatePnebiVector was inaccurate with small
 order and large argument

The downward recursion started from an order that did not depend on the
argument: e.g. PNEBI(1,304) was 0.016 instead of 0.046.
---
 common/src/functions.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index ebb0f7f..6eb653d 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -187,7 +187,13 @@ namespace rofl {
         seqPrev = 0.0; // bip
         seqCurr = 1.0; // bi
         seqNext = 0.0; // bim
-        for (int k = 2 * (n + (int) sqrt(40.0 * n)); k >= 0; --k) {
+        // The order where the downward recursion starts must be large also w.r.t.
+        // the argument x, since BesselI(k,x) / BesselI(0,x) ~= exp(-k^2 / (2.0 * x))
+        int orderBeg = 2 * (n + (int) sqrt(40.0 * n));
+        if (n > 0) {
+            orderBeg = std::max(orderBeg, n + (int) sqrt(40.0 * std::min(x, 1.0e+6)));
+        }
+        for (int k = orderBeg; k >= 0; --k) {
             seqNext = seqPrev + factor * k * seqCurr;
             seqPrev = seqCurr;
             seqCurr = seqNext;
-- 
2.43.0


From 877c8b72ebee20bf54505a1f3fde2361b1250fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:32 +0000
Subject: [PATCH 25/49] fix: PnebiLUT::init read the value of order 1 also with
 maximum order 0

---
 common/src/functions.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index 6eb653d..4d582e6 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -253,6 +253,7 @@ namespace rofl {
         // Case  f'(0,x0) = 0 occurs only for x0 -> +inf. When |f'(0,x)| < eps, the algorithm stops.
         int lutNum = (int) ceil(2.0 / tol) + 20;
         double x, y0prev, ratio, deriv;
+        std::vector<double> y01(2); // PNEBI of order 0 and 1 (also when n is 0)
 
         // Inserts initial point x=0.0
         x = 0.0;
@@ -261,14 +262,16 @@ namespace rofl {
         lut_.clear();
         lut_.reserve(lutNum);
         lut_.push_back(PnebiPoint(n, x));
-        deriv = lut_.back().y[1] - lut_.back().y[0]; // Initial value of deriv is -2.0
+        evaluatePnebiVector(1, x, y01);
+        deriv = y01[1] - y01[0]; // Initial value of deriv is -2.0
         y0prev = lut_.back().y[0];
         //  std::cout << "x " << x << ", deriv " << deriv << std::endl;
         for (int i = 1; i < lutNum; ++i) {
             x = x - tol / deriv;
             lut_.push_back(PnebiPoint(n, x));
             ratio = deriv * (y0prev - lut_.back().y[0]) / tol;
-            deriv = std::min(std::max(lut_.back().y[1] - lut_.back().y[0], ratio), -10.0 * std::numeric_limits<double>::min());
+            evaluatePnebiVector(1, x, y01);
+            deriv = std::min(std::max(y01[1] - y01[0], ratio), -10.0 * std::numeric_limits<double>::min());
             //            std::cout << "x " << x << ", y[0] " << lut_.back().y[0] << " (incr prev y[0] " << (lut_.back().y[0] - y0prev) << "), "
             //                      << "real deriv " << (lut_.back().y[1] - lut_.back().y[0]) << ", deriv " << deriv << ", ratio " << ratio << std::endl;
             y0prev = lut_.back().y[0];
-- 
2.43.0


From f8bb85d84ea2b87e8b75a6f9de76bd57468438e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:32 +0000
Subject: [PATCH 26/49] fix: PnebiLUT::eval refused the maximum order stored in
 the LUT

---
 common/src/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index 4d582e6..a3e93ae 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -289,7 +289,7 @@ namespace rofl {
 
         // Checks that 1) argument x is positive; 2) order of PNEBI has been computed;
         if (x < 0.0) x = -x;
-        ROFL_ASSERT_VAR2(0 <= k && k < orderMax_, k, orderMax_);
+        ROFL_ASSERT_VAR2(0 <= k && k <= orderMax_, k, orderMax_);
 
         PnebiPoint tmp(0, x);
         auto upper = std::upper_bound(lut_.begin(), lut_.end(), tmp);
-- 
2.43.0


From 7d0bd91b4f29a3c61f57f9acc5a6502a25c53374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:17 +0000
Subject: [PATCH 27/49] fix: HoughPlaneDetector::insert divided by zero with
 fewer than 8 bins of phi

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index a8d08fd..cb98c16 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -203,7 +203,7 @@ namespace rofl {
         // Computes the Hough Transform (HT) by incrementing counting cells
         for (indicesAngle[0] = 0; indicesAngle[0] < thetaNum_; ++indicesAngle[0]) {
             for (indicesAngle[1] = 0; indicesAngle[1] < phiNum_; ++indicesAngle[1]) {
-                if (indicesAngle[1] % phiNotify == 0) {
+                if (phiNotify > 0 && indicesAngle[1] % phiNotify == 0) {
                     ROFL_VAR2(indicesAngle[0], indicesAngle[1]);
                 }
                 ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE
-- 
2.43.0


From 9a78848307852b6cfe75735c8b20ebba2ab060ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:17 +0000
Subject: [PATCH 28/49] fix: HoughPlaneDetector::insert counted points below
 the minimum rho in the first bin

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index cb98c16..3bbf4b1 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -212,7 +212,7 @@ namespace rofl {
                 for (auto &p : points) {
                     rho = normal(0) * p(0) + normal(1) * p(1) + normal(2) * p(2);
                     //indicesAngle[2] = (int) round((rho - rhoMin_) / rhoRes_);
-                    indicesAngle[2] = (int) ((rho - rhoMin_) / rhoRes_);
+                    indicesAngle[2] = (int) std::floor((rho - rhoMin_) / rhoRes_);
                     if (0 <= indicesAngle[2] && indicesAngle[2] < rhoNum_) {
                         //houghTransform_.value( { itheta, iphi, irho })++;
                         houghTransform_.value(indicesAngle)++;
-- 
2.43.0


From c72de7014427345f995c1d4e8000662bc1a99cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:17 +0000
Subject: [PATCH 29/49] fix: HoughPlaneDetector::getPlaneParam with three
 indices ignored the minimum rho

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index 3bbf4b1..0596000 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -174,7 +174,7 @@ namespace rofl {
         ROFL_ASSERT_VAR2(0 <= irho && irho < rhoNum_, irho, rhoNum_);
         PlaneParam planeParam;
         const Vector3 normal = getNormal(itheta, iphi);
-        planeParam << normal(0), normal(1), normal(2), -(rhoRes_ * irho);
+        planeParam << normal(0), normal(1), normal(2), -(rhoRes_ * irho + rhoMin_);
         return planeParam;
     }
 
-- 
2.43.0


From 3b5504f12a824c8ba77aba6aea666275459bb76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:17 +0000
Subject: [PATCH 30/49] fix: HoughLineDetector::insert did nothing

---
 geometry/src/hough_line_detector.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/geometry/src/hough_line_detector.cpp b/geometry/src/hough_line_detector.cpp
index 402f15d..5deb3d9 100644
--- a/geometry/src/hough_line_detector.cpp
+++ b/geometry/src/hough_line_detector.cpp
@@ -128,7 +128,31 @@ namespace rofl {
     }
 
     void HoughLineDetector::insert(const VectorVector2& points) {
+        Indices2 indices;
+        Scalar rho;
 
+        // Computes the Hough Transform (HT) by incrementing counting cells
+        for (int itheta = 0; itheta < thetaNum_; ++itheta) {
+            const Vector2 &normal = normalLut_[itheta];
+            indices[0] = itheta;
+            for (auto &p : points) {
+                rho = normal(0) * p(0) + normal(1) * p(1);
+                indices[1] = (int) std::floor((rho - rhoMin_) / rhoRes_);
+                if (0 <= indices[1] && indices[1] < rhoNum_) {
+                    houghTransform_.value(indices)++;
+                }
+            }
+        }
+
+        // Computes Hough Spectrum (HS)
+        for (int itheta = 0; itheta < thetaNum_; ++itheta) {
+            Counter &hsVal = houghSpectrum_[itheta];
+            hsVal = 0;
+            for (int irho = 0; irho < rhoNum_; ++irho) {
+                const Counter htVal = houghTransform_.value({itheta, irho});
+                hsVal += htVal * htVal;
+            }
+        }
     }
 
     void HoughLineDetector::findSpectrumIndicesMax(std::vector<Indices1>& indicesMaxima) const {
-- 
2.43.0


From 8c538fbfc98148b2edcda6a1a7205816527ffce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:17 +0000
Subject: [PATCH 31/49] fix: HoughLineDetector declared but did not define
 insert with iterators and findLines of parameters

---
 .../include/rofl/geometry/hough_line_detector.h | 17 +++++++++++++++++
 geometry/src/hough_line_detector.cpp            | 11 +++++++++++
 2 files changed, 28 insertions(+)

diff --git a/geometry/include/rofl/geometry/hough_line_detector.h b/geometry/include/rofl/geometry/hough_line_detector.h
index e6d664e..70a11e3 100644
--- a/geometry/include/rofl/geometry/hough_line_detector.h
+++ b/geometry/include/rofl/geometry/hough_line_detector.h
@@ -232,6 +232,23 @@ namespace rofl {
         int irhoWin_;
     };
 
+    // ------------------------------------------------------------------------
+    // DEFINITION OF METHODS WITH TEMPLATE ARGUMENTS
+    // ------------------------------------------------------------------------
+
+    template <typename Iterator, typename Converter>
+    void HoughLineDetector::insert(Iterator beg, Iterator end, const Converter& converter) {
+        setZero();
+
+        VectorVector2 points;
+        points.reserve(std::distance(beg, end));
+        for (auto it = beg; it != end; ++it) {
+            points.push_back(converter(*it));
+        }
+
+        insert(points);
+    }
+
 } // end of namespace rofl
 
 #endif /* GEOMETRY_INCLUDE_ROFL_GEOMETRY_HOUGH_LINE_DETECTOR_H_ */
diff --git a/geometry/src/hough_line_detector.cpp b/geometry/src/hough_line_detector.cpp
index 5deb3d9..bc068a3 100644
--- a/geometry/src/hough_line_detector.cpp
+++ b/geometry/src/hough_line_detector.cpp
@@ -215,4 +215,15 @@ namespace rofl {
         }
     }
 
+    void HoughLineDetector::findLines(VectorLineParam& linesParams) {
+        std::vector<Indices2> linesIndices;
+
+        findLines(linesIndices);
+        linesParams.resize(linesIndices.size());
+        for (int i = 0; i < linesIndices.size(); ++i) {
+            const Vector2 &normal = normalLut_[linesIndices[i][0]];
+            linesParams[i] << normal(0), normal(1), -(rhoRes_ * linesIndices[i][1] + rhoMin_);
+        }
+    }
+
 } // end of namespace
-- 
2.43.0


From b1098e479d3493a9065c862e1fd5485113d9f7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:47 +0000
Subject: [PATCH 32/49] fix: CorrespondenceGraphAssociation stopped the search
 after 200 calls of the process

---
 geometry/src/correspondence_graph_association.cpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/geometry/src/correspondence_graph_association.cpp b/geometry/src/correspondence_graph_association.cpp
index 5d8aeed..4d77f02 100644
--- a/geometry/src/correspondence_graph_association.cpp
+++ b/geometry/src/correspondence_graph_association.cpp
@@ -178,14 +178,6 @@ namespace rofl {
     }
 
     void CorrespondenceGraphAssociation::executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes) {
-        static int iterCount = 0;
-
-        iterCount++;
-        ROFL_VAR1(iterCount);
-        if (iterCount >= 200) {
-            return;
-        }
-
         if (candidateNodes.empty() && excludedNodes.empty()) {
             //return cliqueCur;
             ROFL_MSG("maximum clique: " << cliqueCur);
-- 
2.43.0


From e99f52589daebc1e1860faed9717386101f4f18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:47 +0000
Subject: [PATCH 33/49] fix: CorrespondenceGraphAssociation modified the set of
 candidates while visiting it

---
 geometry/src/correspondence_graph_association.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/src/correspondence_graph_association.cpp b/geometry/src/correspondence_graph_association.cpp
index 4d77f02..9bc96bf 100644
--- a/geometry/src/correspondence_graph_association.cpp
+++ b/geometry/src/correspondence_graph_association.cpp
@@ -184,7 +184,8 @@ namespace rofl {
             return;
         }
 
-        for (auto& n : candidateNodes) {
+        const LabelSet nodesToVisit(candidateNodes);
+        for (auto& n : nodesToVisit) {
             ROFL_VAR4(n, cliqueCur, candidateNodes, excludedNodes);
             LabelSet cliqueCurNew = cliqueCur.unionSet(n);
             LabelSet candidateNodesNew = candidateNodes.intersectionSet(nodes_[n].adjacents);
-- 
2.43.0


From fba2723fa74fb1bcb740224e39f4a1c2bfcacceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:47 +0000
Subject: [PATCH 34/49] fix: CorrespondenceGraphAssociation::associate did not
 return the maximum cliques

---
 .../geometry/correspondence_graph_association.h  |  2 +-
 .../src/correspondence_graph_association.cpp     | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/geometry/include/rofl/geometry/correspondence_graph_association.h b/geometry/include/rofl/geometry/correspondence_graph_association.h
index a29fba0..0b42676 100644
--- a/geometry/include/rofl/geometry/correspondence_graph_association.h
+++ b/geometry/include/rofl/geometry/correspondence_graph_association.h
@@ -195,7 +195,7 @@ namespace rofl {
         
         void convertToAssociation(const LabelSet& correspNodes, AssociationHypothesis& assocHyp) const;
         
-        void executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes);
+        void executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes, std::vector<LabelSet>& cliquesMax) const;
     };
 
 } // end of namespace
diff --git a/geometry/src/correspondence_graph_association.cpp b/geometry/src/correspondence_graph_association.cpp
index 9bc96bf..a69dd5c 100644
--- a/geometry/src/correspondence_graph_association.cpp
+++ b/geometry/src/correspondence_graph_association.cpp
@@ -114,7 +114,8 @@ namespace rofl {
         for (int i = 0; i < nodes_.size(); ++i) {
             candidateNodes.insert(i);
         }
-        executeBronKerbosch(cliqueCur, candidateNodes, excludedNodes);
+        cliquesMax.clear();
+        executeBronKerbosch(cliqueCur, candidateNodes, excludedNodes, cliquesMax);
 
         //        for (auto& node0 : nodeList) {
         //            cliqueCur = nodes_[node0].adjacents.unionSet(node0);
@@ -177,10 +178,15 @@ namespace rofl {
         //        }
     }
 
-    void CorrespondenceGraphAssociation::executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes) {
+    void CorrespondenceGraphAssociation::executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes, std::vector<LabelSet>& cliquesMax) const {
         if (candidateNodes.empty() && excludedNodes.empty()) {
-            //return cliqueCur;
-            ROFL_MSG("maximum clique: " << cliqueCur);
+            // Keeps only the maximal cliques with the maximum number of nodes
+            if (!cliquesMax.empty() && cliqueCur.size() > cliquesMax.back().size()) {
+                cliquesMax.clear();
+            }
+            if (cliquesMax.empty() || cliqueCur.size() == cliquesMax.back().size()) {
+                cliquesMax.push_back(cliqueCur);
+            }
             return;
         }
 
@@ -191,7 +197,7 @@ namespace rofl {
             LabelSet candidateNodesNew = candidateNodes.intersectionSet(nodes_[n].adjacents);
             LabelSet excludedNodesNew = excludedNodes.intersectionSet(nodes_[n].adjacents);
             ROFL_VAR4(n, cliqueCurNew, candidateNodesNew, excludedNodesNew);
-            executeBronKerbosch(cliqueCurNew, candidateNodesNew, excludedNodesNew);
+            executeBronKerbosch(cliqueCurNew, candidateNodesNew, excludedNodesNew, cliquesMax);
             candidateNodes.remove(n);
             excludedNodes.insert(n);
         }
-- 
2.43.0


From 552d8c77b390b253a4621c2f57d02c1877fb7d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:47 +0000
Subject: [PATCH 35/49] fix: CorrespondenceGraphAssociation::associate kept the
 nodes of the previous call

---
 geometry/src/correspondence_graph_association.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geometry/src/correspondence_graph_association.cpp b/geometry/src/correspondence_graph_association.cpp
index a69dd5c..227b868 100644
--- a/geometry/src/correspondence_graph_association.cpp
+++ b/geometry/src/correspondence_graph_association.cpp
@@ -52,6 +52,7 @@ namespace rofl {
         // Creates the list of correspondence nodes.
         // Each node represents an association between a source and a destination
         // point/item. 
+        nodes_.clear();
         nodes_.reserve(numSrc_ * numDst_);
         node.adjacents.clear();
         for (int is = 0; is < numSrc_; ++is) {
-- 
2.43.0


From 7a92f087d9a2d11c511563ccacf4cb69bab85cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:47 +0000
Subject: [PATCH 36/49] fix: CorrespondenceGraphAssociation mixed the distances
 of successive source or destination sets

---
 .../include/rofl/geometry/correspondence_graph_association.h  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/include/rofl/geometry/correspondence_graph_association.h b/geometry/include/rofl/geometry/correspondence_graph_association.h
index 0b42676..c3bbb40 100644
--- a/geometry/include/rofl/geometry/correspondence_graph_association.h
+++ b/geometry/include/rofl/geometry/correspondence_graph_association.h
@@ -122,6 +122,7 @@ namespace rofl {
         template <typename It, typename Dist>
         void insertSrc(It beg, It end, Dist dist) {
             numSrc_ = std::distance(beg, end);
+            distancesSrc_.clear();
             distancesSrc_.reserve(numSrc_ * (numSrc_ - 1) / 2);
             insertPairDistances(beg, end, dist, std::back_inserter(distancesSrc_));
 
@@ -151,7 +152,8 @@ namespace rofl {
         template <typename It, typename Dist>
         void insertDst(It beg, It end, Dist dist) {
             numDst_ = std::distance(beg, end);
-            distancesSrc_.reserve(numDst_ * (numDst_ - 1) / 2);
+            distancesDst_.clear();
+            distancesDst_.reserve(numDst_ * (numDst_ - 1) / 2);
             insertPairDistances(beg, end, dist, std::back_inserter(distancesDst_));
 
             std::sort(distancesDst_.begin(), distancesDst_.end(),
-- 
2.43.0


From 3a45d115c5e29101a8d6089a79f094be5ed537a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:50 +0000
Subject: [PATCH 37/49] fix: BoxRegistration::computeTransform corrected
 reflections on the wrong axis in 3D

---
 geometry/include/rofl/geometry/box_registration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/include/rofl/geometry/box_registration.h b/geometry/include/rofl/geometry/box_registration.h
index 36c1452..4ab7ee5 100644
--- a/geometry/include/rofl/geometry/box_registration.h
+++ b/geometry/include/rofl/geometry/box_registration.h
@@ -190,7 +190,7 @@ namespace rofl {
         else
             d = -1.0;
         SquareMatrix I = SquareMatrix::Identity();
-        I(1, 1) = d;
+        I(DIM - 1, DIM - 1) = d;
 
         R = svd.matrixV() * I * svd.matrixU().transpose();
         transl = meanDst - R * meanSrc;
-- 
2.43.0


From 0b2acc99959d0938c406060e42b196f8877eb81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:50 +0000
Subject: [PATCH 38/49] fix: BoxRegistration::estimateInitTranform could return
 a reflection

---
 geometry/include/rofl/geometry/box_registration.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geometry/include/rofl/geometry/box_registration.h b/geometry/include/rofl/geometry/box_registration.h
index 4ab7ee5..3d5ee54 100644
--- a/geometry/include/rofl/geometry/box_registration.h
+++ b/geometry/include/rofl/geometry/box_registration.h
@@ -234,6 +234,9 @@ namespace rofl {
                 << "eigen vectors:\n" << eigenSolver.eigenvectors() << "\n";
 
         transf.linear() = eigenSolver.eigenvectors() * perm_;
+        if (transf.linear().determinant() < 0) {
+            transf.linear().col(0) *= -1.0;
+        }
         transf.translation() = centroid;
         transf.makeAffine();
     }
-- 
2.43.0


From 2642272a89cb5cd229ca91769387982a84b1971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:40 +0000
Subject: [PATCH 39/49] fix: normalizeAngle2Pi returned values out of the
 documented interval

---
 geometry/src/base_geometry2.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometry/src/base_geometry2.cpp b/geometry/src/base_geometry2.cpp
index 6e68898..a675098 100644
--- a/geometry/src/base_geometry2.cpp
+++ b/geometry/src/base_geometry2.cpp
@@ -40,7 +40,10 @@ namespace rofl {
     // --------------------------------------------------------------
 
     Scalar normalizeAngle2Pi(Scalar angle) {
-        return (angle - K_2PI * floor(angle / K_2PI));
+        angle -= K_2PI * floor(angle / K_2PI);
+        // Rounding can lead slightly out of interval [0, 2*M_PI[
+        if (angle < 0.0) angle += K_2PI;
+        return (angle < K_2PI ? angle : 0.0);
     }
 
     bool insideAngleInterval(Scalar x, Scalar y, Vector2 pBeg, Vector2 pEnd) {
-- 
2.43.0


From 4804ba92e6f86ea8db93de0e1978f6b56e86a51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:40 +0000
Subject: [PATCH 40/49] fix: local coordinates used the longitude instead of
 the latitude for the length of a degree of longitude

---
 geometry/src/gis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/src/gis.cpp b/geometry/src/gis.cpp
index f9c04ab..2543c84 100644
--- a/geometry/src/gis.cpp
+++ b/geometry/src/gis.cpp
@@ -44,12 +44,12 @@ namespace rofl {
     }
 
     void convertLatLonToLocalXY(Scalar latOrg, Scalar lonOrg, Scalar lat, Scalar lon, Scalar& x, Scalar& y) {
-        x = (lon - lonOrg) * meterPerDegLon(lonOrg);
+        x = (lon - lonOrg) * meterPerDegLon(latOrg);
         y = (lat - latOrg) * meterPerDegLat(latOrg);
     }
 
     void convertLocalXYToLatLon(Scalar latOrg, Scalar lonOrg, Scalar x, Scalar y, Scalar& lat, Scalar& lon) {
-        lon = x / meterPerDegLon(lonOrg) + lonOrg;
+        lon = x / meterPerDegLon(latOrg) + lonOrg;
         lat = y / meterPerDegLat(latOrg) + latOrg;
     }
 }
-- 
2.43.0


From 050100a028948be1adbc2832d82fcafdb2b16895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:28 +0000
Subject: [PATCH 41/49] fix: VectorArray difference added the operands

---
 common/include/rofl/common/vector_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/vector_array.h b/common/include/rofl/common/vector_array.h
index b242922..90ca9b9 100644
--- a/common/include/rofl/common/vector_array.h
+++ b/common/include/rofl/common/vector_array.h
@@ -48,7 +48,7 @@ namespace rofl {
 		Type operator-(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] + other[d];
+				res = (*this)[d] - other[d];
 			}
 			return res;
 		}
-- 
2.43.0


From 71c9214183c193ba73ae7ea62aae1ad6d7484f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:28 +0000
Subject: [PATCH 42/49] fix: VectorArray operators assigned a component to the
 whole vector and did not compile

---
 common/include/rofl/common/vector_array.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/include/rofl/common/vector_array.h b/common/include/rofl/common/vector_array.h
index 90ca9b9..b1b512b 100644
--- a/common/include/rofl/common/vector_array.h
+++ b/common/include/rofl/common/vector_array.h
@@ -40,7 +40,7 @@ namespace rofl {
 		Type operator+(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] + other[d];
+				res[d] = (*this)[d] + other[d];
 			}
 			return res;
 		}
@@ -48,7 +48,7 @@ namespace rofl {
 		Type operator-(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] - other[d];
+				res[d] = (*this)[d] - other[d];
 			}
 			return res;
 		}
@@ -56,7 +56,7 @@ namespace rofl {
 		Type operator*(const Value& scalar)  const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = scalar * (*this)[d];
+				res[d] = scalar * (*this)[d];
 			}
 			return res;
 		}
@@ -64,7 +64,7 @@ namespace rofl {
 		Type operator*(const Type& other)  const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] * other[d];
+				res[d] = (*this)[d] * other[d];
 			}
 			return res;
 		}
@@ -72,7 +72,7 @@ namespace rofl {
 		Type operator/(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] / other[d];
+				res[d] = (*this)[d] / other[d];
 			}
 			return res;
 		}
-- 
2.43.0


From eecdaf6a1d2ad73f8b009e7941ca65528ad10ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:28 +0000
Subject: [PATCH 43/49] fix: PointCloudPlaneAligner selected the inliers with a
 distance scaled by the norm of the plane coefficients

---
 pcl/include/rofl/pcl/point_cloud_plane_aligner.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcl/include/rofl/pcl/point_cloud_plane_aligner.h b/pcl/include/rofl/pcl/point_cloud_plane_aligner.h
index f0c2fa8..1d13e7a 100644
--- a/pcl/include/rofl/pcl/point_cloud_plane_aligner.h
+++ b/pcl/include/rofl/pcl/point_cloud_plane_aligner.h
@@ -137,7 +137,7 @@ namespace rofl {
             centerPlane = Vector3::Zero();
             inlierNum = 0;
             for (auto& p : cloud_->points) {
-                dist = fabs(p.x * plane_(0) + p.y * plane_(1) + p.z * plane_(2) + plane_(3));
+                dist = fabs(p.x * plane_(0) + p.y * plane_(1) + p.z * plane_(2) + plane_(3)) / plane_.head<3>().norm();
                 if (dist < planeTol_) {
                     centerPlane(0) += p.x;
                     centerPlane(1) += p.y;
-- 
2.43.0


From 76562328b1fa6ca1bc14f78c73886ed3d533af94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:59 +0000
Subject: [PATCH 44/49] fix: VectorArray scaled by one of its own components

The scalar is taken by reference: in v *= v[0] the first component changed the
factor used for the following ones.
---
 common/include/rofl/common/vector_array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/include/rofl/common/vector_array.h b/common/include/rofl/common/vector_array.h
index b1b512b..dd78695 100644
--- a/common/include/rofl/common/vector_array.h
+++ b/common/include/rofl/common/vector_array.h
@@ -85,8 +85,9 @@ namespace rofl {
 		}
 
 		Type& operator*=(const Value& scalar) {
+			const Value factor = scalar; // scalar may be a component of this vector
 			for (size_t d = 0; d < Dim; ++d) {
-				(*this)[d] *= scalar;
+				(*this)[d] *= factor;
 			}
 			return *this;
 		}
-- 
2.43.0


From b0330c494b1c2a6bbb44ca774816cb9b6fb6cb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:25 +0000
Subject: [PATCH 45/49] fix: IntervalIndices iteration over more cells than the
 index type can count

---
 common/include/rofl/common/interval_indices.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/common/include/rofl/common/interval_indices.h b/common/include/rofl/common/interval_indices.h
index 11656b9..e13f3d0 100644
--- a/common/include/rofl/common/interval_indices.h
+++ b/common/include/rofl/common/interval_indices.h
@@ -101,7 +101,7 @@ namespace rofl {
         struct RasterIndexer {
             using Indices = std::array<Index, Dim>;
 
-            static Indices getIndices(const Indices& minval, const Indices& dimensions, Index pos) {
+            static Indices getIndices(const Indices& minval, const Indices& dimensions, size_t pos) {
                 Indices indices;
                 size_t res = pos;
                 for (Index d = 0; d < Dim; ++d) {
@@ -133,9 +133,9 @@ namespace rofl {
         struct BoustrophedonIndexer {
             using Indices = std::array<Index, Dim>;
 
-            static Indices getIndices(const Indices& minval, const Indices& dimensions, Index pos) {
+            static Indices getIndices(const Indices& minval, const Indices& dimensions, size_t pos) {
                 Indices indices;
-                Index res = pos;
+                size_t res = pos;
                 for (int d = 0; d < Dim; ++d) {
                     indices[d] = res % dimensions[d];
                     res = res / dimensions[d];
@@ -166,7 +166,7 @@ namespace rofl {
          *
          *     struct Indexer {
          *        using Indices = std::array<Index, Dim>;
-         *        static Indices getIndices(const Indices& minval, const Indices& dimensions, Index pos);
+         *        static Indices getIndices(const Indices& minval, const Indices& dimensions, size_t pos);
          *     };
          */
         template <size_t Dim, typename Index, template <size_t, typename > class Indexer> class IntervalIterator;
@@ -511,7 +511,7 @@ namespace rofl {
 
             static const size_t DIM = Dim;
 
-            IntervalIterator(const IntervalType* interval, Index pos) : interval_(interval), pos_(pos), indices_() {
+            IntervalIterator(const IntervalType* interval, size_t pos) : interval_(interval), pos_(pos), indices_() {
                 ROFL_ASSERT(interval_ != nullptr);
                 if (!interval->empty()) {
                     indices_ = IndexerType::getIndices(interval_->min(), interval_->dimensions(), pos);
@@ -569,7 +569,7 @@ namespace rofl {
 
         private:
             const IntervalType *interval_;
-            Index pos_;
+            size_t pos_;
             Indices indices_;
         };
 
@@ -580,7 +580,7 @@ namespace rofl {
             using IntervalType = typename BaseType::IntervalType;
             using Indices = typename BaseType::Indices;
 
-            RasterIterator(const IntervalType* interval, Index pos) : BaseType(interval, pos) {
+            RasterIterator(const IntervalType* interval, size_t pos) : BaseType(interval, pos) {
             }
 
             virtual ~RasterIterator() {
@@ -594,7 +594,7 @@ namespace rofl {
             using IntervalType = typename BaseType::IntervalType;
             using Indices = typename BaseType::Indices;
 
-            BoustrophedonIterator(const IntervalType* interval, Index pos) : BaseType(interval, pos) {
+            BoustrophedonIterator(const IntervalType* interval, size_t pos) : BaseType(interval, pos) {
             }
 
             virtual ~BoustrophedonIterator() {
-- 
2.43.0


From f4859522318e75f6fa41d580120b069424198e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:02 +0000
Subject: [PATCH 46/49] fix: MortonTree search around a centre near the ends of
 the range of the scalar type

---
 common/include/rofl/common/morton_tree.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/common/include/rofl/common/morton_tree.h b/common/include/rofl/common/morton_tree.h
index 1608a36..178dc09 100644
--- a/common/include/rofl/common/morton_tree.h
+++ b/common/include/rofl/common/morton_tree.h
@@ -27,6 +27,7 @@
 #include <deque>
 #include <initializer_list>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <vector>
 
@@ -274,9 +275,15 @@ class MortonTree {
 
     void searchInBox(const Item& boxCenter, const Scalar& boxRange, std::vector<ConstIterator>& items) {
         Item boxMin, boxMax;
+        if (boxRange < 0) {
+            return;
+        }
         for (int d = 0; d < Dim; ++d) {
-            boxMin.values[d] = boxCenter.values[d] - boxRange;
-            boxMax.values[d] = boxCenter.values[d] + boxRange;
+            // the box is limited to the range of the scalar type
+            Scalar lowest = std::numeric_limits<Scalar>::lowest();
+            Scalar highest = std::numeric_limits<Scalar>::max();
+            boxMin.values[d] = boxCenter.values[d] < lowest + boxRange ? lowest : boxCenter.values[d] - boxRange;
+            boxMax.values[d] = boxCenter.values[d] > highest - boxRange ? highest : boxCenter.values[d] + boxRange;
         }
         searchInBox(boxMin, boxMax, items);
     }
-- 
2.43.0


From 1180ecfecfedbb518f602feac12de33daca0bf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:44 +0000
Subject: [PATCH 47/49] fix: ROFL_VAR7 printed the value of its seventh
 argument for the sixth

---
 common/include/rofl/common/macros.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/macros.h b/common/include/rofl/common/macros.h
index ed0499d..a75de51 100644
--- a/common/include/rofl/common/macros.h
+++ b/common/include/rofl/common/macros.h
@@ -52,7 +52,7 @@
 
 #define ROFL_VAR7(X1,X2,X3,X4,X5,X6,X7) std::cout << ROFL_FILENAME(__FILE__) << "," << __LINE__ << ": " << (#X1) << " " << (X1) \
    << ", " << (#X2) << " " << (X2) << ", " << (#X3) << " " << (X3) << ", " << (#X4) << " " << (X4) \
-   << ", " << (#X5) << " " << (X5) << ", " << (#X6) << " " << (X7) << ", " << (#X7) << " " << (X7) << std::endl;
+   << ", " << (#X5) << " " << (X5) << ", " << (#X6) << " " << (X6) << ", " << (#X7) << " " << (X7) << std::endl;
 
 #define ROFL_ASSERT(COND) if (!(COND)) { std::cerr << __FILE__ << "," << __LINE__ << ": assertion failed on " << #COND << std::endl; exit(-1); }
 
-- 
2.43.0


From 8b32d496dc5f774318643f2391c269df28026df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:46 +0000
Subject: [PATCH 48/49] fix: Vector6 and Vector7 had five components

---
 geometry/include/rofl/geometry/types.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geometry/include/rofl/geometry/types.h b/geometry/include/rofl/geometry/types.h
index 9ccf8b5..fce2a55 100755
--- a/geometry/include/rofl/geometry/types.h
+++ b/geometry/include/rofl/geometry/types.h
@@ -83,8 +83,8 @@ using VectorTransform3 = std::vector<Transform3, Eigen::aligned_allocator<Transf
 
 using Vector4 = Eigen::Matrix<Scalar, 4, 1>;
 using Vector5 = Eigen::Matrix<Scalar, 5, 1>;
-using Vector6 = Eigen::Matrix<Scalar, 5, 1>;
-using Vector7 = Eigen::Matrix<Scalar, 5, 1>;
+using Vector6 = Eigen::Matrix<Scalar, 6, 1>;
+using Vector7 = Eigen::Matrix<Scalar, 7, 1>;
 
 using Matrix2 = Eigen::Matrix<Scalar, 2, 2>;
 using Matrix3 = Eigen::Matrix<Scalar, 3, 3>;
@@ -130,8 +130,8 @@ using VectorTransform3 = std::vector<Transform3>;
 
 using Vector4 = Eigen::Matrix<Scalar, 4, 1>;
 using Vector5 = Eigen::Matrix<Scalar, 5, 1>;
-using Vector6 = Eigen::Matrix<Scalar, 5, 1>;
-using Vector7 = Eigen::Matrix<Scalar, 5, 1>;
+using Vector6 = Eigen::Matrix<Scalar, 6, 1>;
+using Vector7 = Eigen::Matrix<Scalar, 7, 1>;
 
 using Matrix2 = Eigen::Matrix<Scalar, 2, 2>;
 using Matrix3 = Eigen::Matrix<Scalar, 3, 3>;
-- 
2.43.0


From 60b9ccc986f8a97ecf703be91f8d49944c1c41d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:30 +0000
Subject: [PATCH 49/49] fix: the covariance for the initial box placement
 starts from zero

Starting from the identity swamped the covariance of small clouds, whose
principal axes were lost (in float below about a centimetre).
---
 geometry/include/rofl/geometry/box_registration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/include/rofl/geometry/box_registration.h b/geometry/include/rofl/geometry/box_registration.h
index 3d5ee54..c662647 100644
--- a/geometry/include/rofl/geometry/box_registration.h
+++ b/geometry/include/rofl/geometry/box_registration.h
@@ -222,7 +222,7 @@ namespace rofl {
 
         // Estimates the covariance matrix: the initial rotation matrix corresponds 
         // to eigenvector matrix
-        covar = SquareMatrix::Identity();
+        covar = SquareMatrix::Zero();
         for (int i = 0; i < n; ++i) {
             covar += (cloud[i] - centroid) * (cloud[i] - centroid).transpose();
         }
-- 
2.43.0

