From 5ac1b75331cb091623bed344c7225e5682ee7345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 01/38] fix: NormalizedAngleInterval::expandTo must test
 containment, not wrapping

When both end points of the operand lie inside the interval, the union is
the full circle unless the operand itself is contained. Comparing the wrap
flags got this wrong both ways: [350,10].expandTo([2,5]) became full, and
[350,10].expandTo([5,2]) was left unchanged.
---
 src/NormalizedAngleInterval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NormalizedAngleInterval.cc b/src/NormalizedAngleInterval.cc
index 7bd2433..2d3bc52 100644
--- a/src/NormalizedAngleInterval.cc
+++ b/src/NormalizedAngleInterval.cc
@@ -217,7 +217,7 @@ NormalizedAngleInterval & NormalizedAngleInterval::expandTo(
                 // Both endpoints of x are in this interval. This interval
                 // either contains x, in which case this interval is the
                 // desired union, or the union is the full interval.
-                if (wraps() != x.wraps()) {
+                if (!contains(x)) {
                     *this = full();
                 }
             } else {
-- 
2.43.0


From fa26b37301943ba054d6e8994d6013f50553b910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:43 +0000
Subject: [PATCH 02/38] fix: BigInteger::multiplyPow2 must zero-fill the digits
 below the shifted value

---
 src/BigInteger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 99e345c..59c61b2 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -246,7 +246,7 @@ BigInteger & BigInteger::multiplyPow2(unsigned n) {
         }
         _digits[z] = high << s;
         for (unsigned i = z; i != 0; --i) {
-            _digits[i] = 0;
+            _digits[i - 1] = 0;
         }
         _size = (_digits[size] == 0) ? size: size + 1;
     }
-- 
2.43.0


From bcc543db9cc129c006db4b7cade5399d0e9c8859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:43 +0000
Subject: [PATCH 03/38] fix: BigInteger::setTo must not negate INT64_MIN as a
 signed integer

---
 include/lsst/sphgeom/BigInteger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lsst/sphgeom/BigInteger.h b/include/lsst/sphgeom/BigInteger.h
index b64ea99..108058e 100644
--- a/include/lsst/sphgeom/BigInteger.h
+++ b/include/lsst/sphgeom/BigInteger.h
@@ -89,7 +89,7 @@ public:
     /// `setTo` sets this integer to the given signed 64 bit integer value.
     void setTo(std::int64_t x) {
         if (x < 0) {
-            setTo(static_cast<std::uint64_t>(-x));
+            setTo(std::uint64_t(0) - static_cast<std::uint64_t>(x));
             _sign = -1;
         } else {
             setTo(static_cast<std::uint64_t>(x));
-- 
2.43.0


From c9abf6a2b52bc808f8c7fec1befbc14eeffdb09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:43 +0000
Subject: [PATCH 04/38] fix: BigInteger subtraction must strip leading zeroes
 from the result, not from an operand

---
 src/BigInteger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 59c61b2..b533c25 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -103,7 +103,7 @@ unsigned _sub(std::uint32_t * const m,
     // If we subtracted anything from the most significant digit in m1, strip
     // any leading zeroes that may have been introduced.
     if (i == size1) {
-        while (m1[i - 1] == 0) { --i; }
+        while (m[i - 1] == 0) { --i; }
         return i;
     }
     // Otherwise, copy the remaining digits from m1 to m.
-- 
2.43.0


From cbec0fd3157d38a803601c97f5673eaefcc84188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:43 +0000
Subject: [PATCH 05/38] fix: BigInteger::multiply must not overwrite factor
 digits it still needs

---
 src/BigInteger.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index b533c25..37d969f 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -33,6 +33,7 @@
 #include "lsst/sphgeom/BigInteger.h"
 
 #include <algorithm>
+#include <vector>
 
 
 namespace lsst {
@@ -114,8 +115,8 @@ unsigned _sub(std::uint32_t * const m,
 }
 
 // `_mul` computes the product of m1 and m2 and stores the result in m,
-// which may equal either m1 or m2. It assumes that m1 has at least as many
-// digits as m2, and returns the the number of digits in the product.
+// which may equal m1, but not m2. It returns the the number of digits in the
+// product.
 unsigned _mul(std::uint32_t * const m,
               std::uint32_t const * const m1,
               std::uint32_t const * const m2,
@@ -126,8 +127,8 @@ unsigned _mul(std::uint32_t * const m,
     // digit counts. A requirement for anything fancier involves enough
     // complexity that switching to GMP is definitely warranted.
     //
-    // The only small subtlety here is that because m is allowed to alias m1
-    // or m2, we compute products of m2 from most to least significant digit of
+    // The only small subtlety here is that because m is allowed to alias m1,
+    // we compute products of m2 from most to least significant digit of
     // m1. This way no as yet unprocessed input digits are overwritten.
     unsigned const size = size1 + size2;
     for (unsigned i = size1; i < size; ++i) {
@@ -260,10 +261,13 @@ BigInteger & BigInteger::multiply(BigInteger const & b) {
         return *this;
     }
     _checkCapacity(_size + b._size);
-    if (_size >= b._size) {
-        _size = _mul(_digits, _digits, b._digits, _size, b._size);
+    if (this == &b) {
+        // The digits of the second factor must survive until the last digit
+        // of the product has been computed.
+        std::vector<std::uint32_t> const digits(_digits, _digits + _size);
+        _size = _mul(_digits, _digits, digits.data(), _size, _size);
     } else {
-        _size = _mul(_digits, b._digits, _digits, b._size, _size);
+        _size = _mul(_digits, _digits, b._digits, _size, b._size);
     }
     return *this;
 }
-- 
2.43.0


From 83e842939ad3faa42de44ec79f926e7a775b2a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:43 +0000
Subject: [PATCH 06/38] fix: a refused BigInteger operation must leave the
 value unchanged

---
 src/BigInteger.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 37d969f..2d4fc98 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -211,7 +211,12 @@ BigInteger & BigInteger::subtract(BigInteger const & b) {
         // Avoid code duplication by computing a - b = -(-a + b).
         // This only works if a and b are distinct.
         negate();
-        add(b);
+        try {
+            add(b);
+        } catch (...) {
+            negate();
+            throw;
+        }
         negate();
     } else {
         setToZero();
@@ -255,12 +260,12 @@ BigInteger & BigInteger::multiplyPow2(unsigned n) {
 }
 
 BigInteger & BigInteger::multiply(BigInteger const & b) {
-    _sign *= b._sign;
-    if (_sign == 0) {
-        _size = 0;
+    if (_sign == 0 || b._sign == 0) {
+        setToZero();
         return *this;
     }
     _checkCapacity(_size + b._size);
+    _sign *= b._sign;
     if (this == &b) {
         // The digits of the second factor must survive until the last digit
         // of the product has been computed.
-- 
2.43.0


From 7e9a5a6ec7aa1c3512527f8e4f752f58d37f3245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:29 +0000
Subject: [PATCH 07/38] fix: a full Ellipse must contain every point

---
 src/Ellipse.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Ellipse.cc b/src/Ellipse.cc
index 31cfef8..fc3bcb7 100644
--- a/src/Ellipse.cc
+++ b/src/Ellipse.cc
@@ -165,6 +165,11 @@ Ellipse::Ellipse(UnitVector3d const & center,
 }
 
 bool Ellipse::contains(UnitVector3d const & v) const {
+    if (isFull()) {
+        // The tangents below are infinite for a full ellipse, and multiplying
+        // them with a zero vector component would yield NaN.
+        return true;
+    }
     UnitVector3d const c = getCenter();
     double vdotc = v.dot(c);
     Vector3d u;
-- 
2.43.0


From 6a04e6ebe2e55ac80c68b548c89dc2126f923693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 08/38] fix: Circle::getBoundingBox3d must not lose the
 distance of the center from an axis to cancellation

---
 src/Circle.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Circle.cc b/src/Circle.cc
index 13f3fdf..0b1ba22 100644
--- a/src/Circle.cc
+++ b/src/Circle.cc
@@ -256,7 +256,9 @@ Box3d Circle::getBoundingBox3d() const {
     double c = cos(_openingAngle);
     for (int i = 0; i < 3; ++i) {
         double ci = _center(i);
-        double di = std::sqrt(1.0 - ci * ci);
+        // Equal to √(1 - cᵢ²), but without the cancellation near cᵢ = ±1.
+        double cj = _center((i + 1) % 3), ck = _center((i + 2) % 3);
+        double di = std::sqrt(cj * cj + ck * ck);
         double bmin = 1.0, bmax = -1.0;
         if (2.0 - 2.0 * ci <= _squaredChordLength) {
             bmax = 1.0;
-- 
2.43.0


From 34431df9e248a38ef07afd21384847b04dd0d0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 09/38] fix: polygon 3-D bounding boxes must not lose shallow
 edge extrema to cancellation

---
 src/ConvexPolygonImpl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ConvexPolygonImpl.h b/src/ConvexPolygonImpl.h
index ad57d03..3d91c25 100644
--- a/src/ConvexPolygonImpl.h
+++ b/src/ConvexPolygonImpl.h
@@ -194,7 +194,9 @@ Box3d boundingBox3d(VertexIterator const begin, VertexIterator const end) {
         UnitVector3d n(j->robustCross(*k));
         for (int i = 0; i < 3; ++i) {
             double ni = n(i);
-            double d = std::fabs(1.0 - ni * ni);
+            // Equal to 1 - nᵢ², but without the cancellation near nᵢ = ±1.
+            double nj = n((i + 1) % 3), nk = n((i + 2) % 3);
+            double d = nj * nj + nk * nk;
             if (d > 0.0) {
                 Vector3d e(i == 0 ? -d : n.x() * ni,
                            i == 1 ? -d : n.y() * ni,
-- 
2.43.0


From c334bf0b2fdb5d81f455cd852557ba9f4dfebf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 10/38] fix: Box::getBoundingCircle must prefer the south pole
 for a wide southern parallel

---
 src/Box.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Box.cc b/src/Box.cc
index 49aea7e..414f477 100644
--- a/src/Box.cc
+++ b/src/Box.cc
@@ -304,7 +304,7 @@ Circle Box::getBoundingCircle() const {
     // of the bounding circles centered at the north and south pole.
     Angle r;
     UnitVector3d v;
-    if (abs(_lat.getA()) <= abs(_lat.getB())) {
+    if (-_lat.getA() <= _lat.getB()) {
         v = UnitVector3d::Z();
         r = Angle(0.5 * PI) - _lat.getA();
     } else {
-- 
2.43.0


From 5f49dfcc73ffc4bcb1dc7198943fd26d15cce796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:57 +0000
Subject: [PATCH 11/38] fix: the bounding box of a polygon spanning almost half
 of all longitudes must not cover the wrong half

---
 src/ConvexPolygonImpl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ConvexPolygonImpl.h b/src/ConvexPolygonImpl.h
index 3d91c25..83ce1e5 100644
--- a/src/ConvexPolygonImpl.h
+++ b/src/ConvexPolygonImpl.h
@@ -143,6 +143,12 @@ Box boundingBox(VertexIterator const begin, VertexIterator const end) {
             }
         }
     }
+    // The longitudes of a polygon that contains no pole span at most π. Given
+    // the padding above, expandTo may have covered the wrong half of the
+    // longitudes if they span almost that much.
+    if (!bbox.isEmpty() && bbox.getWidth() >= Angle(PI) - 4.0 * eps) {
+        bbox = Box(Box::allLongitudes(), bbox.getLat());
+    }
     // If this polygon contains a pole, its bounding box must contain all
     // longitudes.
     if (!haveCW) {
-- 
2.43.0


From fc0e67b404c65132bc54e28e6acc85c1c5b1b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:22 +0000
Subject: [PATCH 12/38] fix: findPixels must not keep a pointer to a temporary
 bounding circle

---
 src/PixelFinder.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index 718d184..1e64e05 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -161,8 +161,9 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         Finder<Circle, InteriorOnly> find(s, *circle, level, maxRanges);
         find();
     } else if (auto ellipse = dynamic_cast<Ellipse const *>(&r)) {
-        Finder<Circle, InteriorOnly> find(
-            s, ellipse->getBoundingCircle(), level, maxRanges);
+        // The finder keeps a pointer to the region it is given.
+        Circle const bound = ellipse->getBoundingCircle();
+        Finder<Circle, InteriorOnly> find(s, bound, level, maxRanges);
         find();
     } else if (auto box = dynamic_cast<Box const *>(&r)) {
         Finder<Box, InteriorOnly> find(s, *box, level, maxRanges);
-- 
2.43.0


From da8924641a04ab7fd9039159a0909c138e4f8f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:22 +0000
Subject: [PATCH 13/38] fix: the pixels within an ellipse must not be those
 within its bounding circle

---
 src/PixelFinder.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index 1e64e05..a138645 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -149,6 +149,17 @@ private:
 };
 
 
+// `inscribedCircle` returns a circle that is within the given ellipse and has
+// the same center.
+inline Circle inscribedCircle(Ellipse const & e) {
+    if (e.isFull()) {
+        return Circle::full();
+    }
+    Angle r = std::min(e.getAlpha(), e.getBeta()) - 2.0 * Angle(MAX_ASIN_ERROR);
+    return Circle(e.getCenter(), r);
+}
+
+
 // `findPixels` implements pixel-finding for an arbitrary Region, given a
 // PixelFinder subclass for a specific pixelization.
 template <
@@ -162,7 +173,10 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         find();
     } else if (auto ellipse = dynamic_cast<Ellipse const *>(&r)) {
         // The finder keeps a pointer to the region it is given.
-        Circle const bound = ellipse->getBoundingCircle();
+        // Pixels intersecting an ellipse intersect its bounding circle, and
+        // pixels within its inscribed circle are within the ellipse.
+        Circle const bound = InteriorOnly ?
+            detail::inscribedCircle(*ellipse) : ellipse->getBoundingCircle();
         Finder<Circle, InteriorOnly> find(s, bound, level, maxRanges);
         find();
     } else if (auto box = dynamic_cast<Box const *>(&r)) {
-- 
2.43.0


From 504c17cbfdafc5c9605148e9ffdc0d1ddcce7869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:22 +0000
Subject: [PATCH 14/38] fix: the range cap must also hold for the pixels of
 compound regions

---
 src/PixelFinder.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index a138645..b46dbbb 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -160,6 +160,27 @@ inline Circle inscribedCircle(Ellipse const & e) {
 }
 
 
+// `limitRanges` simplifies the given pixel indexes until they consist of at
+// most maxRanges ranges (a value of 0 means there is no limit). Intersecting
+// pixels are simplified by expanding ranges outwards, interior pixels by
+// shrinking them inwards, as in PixelFinder.
+template <bool InteriorOnly>
+void limitRanges(RangeSet & s, size_t maxRanges) {
+    if (maxRanges == 0) {
+        return;
+    }
+    for (int shift = 2; s.size() > maxRanges; shift += 2) {
+        if (InteriorOnly) {
+            s.complement();
+        }
+        s.simplify(shift);
+        if (InteriorOnly) {
+            s.complement();
+        }
+    }
+}
+
+
 // `findPixels` implements pixel-finding for an arbitrary Region, given a
 // PixelFinder subclass for a specific pixelization.
 template <
@@ -192,12 +213,14 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         auto rs1 = findPixels<Finder, InteriorOnly>(region1, maxRanges, level);
         auto rs2 = findPixels<Finder, InteriorOnly>(region2, maxRanges, level);
         s = rs1.join(rs2);
+        limitRanges<InteriorOnly>(s, maxRanges);
     } else if (auto intersection_region = dynamic_cast<IntersectionRegion const *>(&r)) {
         Region const &region1 = intersection_region->getOperand(0);
         Region const &region2 = intersection_region->getOperand(1);
         auto rs1 = findPixels<Finder, InteriorOnly>(region1, maxRanges, level);
         auto rs2 = findPixels<Finder, InteriorOnly>(region2, maxRanges, level);
         s = rs1.intersection(rs2);
+        limitRanges<InteriorOnly>(s, maxRanges);
     } else {
         throw std::runtime_error(std::string("PixelFinder: Unsupported type ") + typeid(r).name());
     }
-- 
2.43.0


From a3168c1886938753a8af90d2d4c7bb495951faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:22 +0000
Subject: [PATCH 15/38] fix: capped envelopes must not contain indexes of
 nonexistent cube faces

---
 src/Mq3cPixelization.cc | 4 +++-
 src/Q3cPixelization.cc  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Mq3cPixelization.cc b/src/Mq3cPixelization.cc
index 269c990..adf04c6 100644
--- a/src/Mq3cPixelization.cc
+++ b/src/Mq3cPixelization.cc
@@ -343,7 +343,9 @@ std::unique_ptr<Region> Mq3cPixelization::pixel(std::uint64_t i) const {
 #endif
 
 RangeSet Mq3cPixelization::_envelope(Region const & r, size_t maxRanges) const {
-    return detail::findPixels<Mq3cPixelFinder, false>(r, maxRanges, _level);
+    // Simplification past the root level may add indexes that do not exist.
+    return detail::findPixels<Mq3cPixelFinder, false>(r, maxRanges, _level) &
+           universe();
 }
 
 RangeSet Mq3cPixelization::_interior(Region const & r, size_t maxRanges) const {
diff --git a/src/Q3cPixelization.cc b/src/Q3cPixelization.cc
index 686b824..f91a4d9 100644
--- a/src/Q3cPixelization.cc
+++ b/src/Q3cPixelization.cc
@@ -341,7 +341,9 @@ std::unique_ptr<Region> Q3cPixelization::pixel(std::uint64_t i) const {
 #endif
 
 RangeSet Q3cPixelization::_envelope(Region const & r, size_t maxRanges) const {
-    return detail::findPixels<Q3cPixelFinder, false>(r, maxRanges, _level);
+    // Simplification past the root level may add indexes that do not exist.
+    return detail::findPixels<Q3cPixelFinder, false>(r, maxRanges, _level) &
+           universe();
 }
 
 RangeSet Q3cPixelization::_interior(Region const & r, size_t maxRanges) const {
-- 
2.43.0


From 9046d925a95a340688dc674b319a5b50fc3e8a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:19 +0000
Subject: [PATCH 16/38] fix: a capped envelope must not skip root pixels once
 the level is reduced past the roots

---
 src/PixelFinder.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index b46dbbb..f1540b5 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -90,10 +90,12 @@ public:
                uint64_t index,
                int level)
     {
-        if (level > _level) {
+        if (level > _level && (InteriorOnly || level > 0)) {
             // Nothing to do - the subdivision level has been reduced
             // or a pixel that completely contains the search region
-            // has been found.
+            // has been found. Root pixels that may intersect the search
+            // region have no parent that was already inserted, and must
+            // not be skipped.
             return;
         }
         // Determine the relationship between the pixel and the search region.
@@ -107,7 +109,7 @@ public:
             // the search region.
             _insert(index, level);
             return;
-        } else if (level == _level) {
+        } else if (level >= _level) {
             // The tree traversal has reached a leaf.
             if (!InteriorOnly) {
                 _insert(index, level);
-- 
2.43.0


From b388c23b650dfa357ccffb7f10af12d3df08b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 17/38] fix: refuse chunker configurations whose ids overflow
 32 bits

---
 src/Chunker.cc | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index 56a7b28..1005494 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -32,6 +32,8 @@
 
 #include "lsst/sphgeom/Chunker.h"
 
+#include <limits>
+
 namespace lsst {
 namespace sphgeom {
 
@@ -58,6 +60,26 @@ std::int32_t computeNumSegments(AngleInterval const & latitudes, Angle width) {
 
 constexpr double BOX_EPSILON = 5.0e-12; // ~1 micro-arcsecond
 
+// `checkStripes` returns the total number of sub-stripes for a configuration,
+// or throws if it is invalid, or too fine for 32 bit chunk IDs.
+std::int32_t checkStripes(std::int32_t numStripes,
+                          std::int32_t numSubStripesPerStripe)
+{
+    if (numStripes < 1 || numSubStripesPerStripe < 1) {
+        throw std::runtime_error("The number of stripes and sub-stripes "
+                                 "per stripe must be positive");
+    }
+    std::int64_t const n = numStripes;
+    if (n * numSubStripesPerStripe > 180*3600) {
+        throw std::runtime_error("Sub-stripes are too small");
+    }
+    // There are at most 2*n chunks in each of n stripes.
+    if (2 * n * n > std::numeric_limits<std::int32_t>::max()) {
+        throw std::runtime_error("Stripes are too small");
+    }
+    return numStripes * numSubStripesPerStripe;
+}
+
 } // unnamed namespace
 
 
@@ -65,17 +87,10 @@ Chunker::Chunker(std::int32_t numStripes,
                  std::int32_t numSubStripesPerStripe) :
     _numStripes(numStripes),
     _numSubStripesPerStripe(numSubStripesPerStripe),
-    _numSubStripes(numStripes * numSubStripesPerStripe),
+    _numSubStripes(checkStripes(numStripes, numSubStripesPerStripe)),
     _maxSubChunksPerSubStripeChunk(0),
     _subStripeHeight(Angle(PI) / _numSubStripes)
 {
-    if (numStripes < 1 || numSubStripesPerStripe < 1) {
-        throw std::runtime_error("The number of stripes and sub-stripes "
-                                 "per stripe must be positive");
-    }
-    if (numStripes * numSubStripesPerStripe > 180*3600) {
-        throw std::runtime_error("Sub-stripes are too small");
-    }
     Angle const stripeHeight = Angle(PI) / _numStripes;
     _stripes.reserve(_numStripes);
     _subStripes.reserve(_numSubStripes);
@@ -105,6 +120,10 @@ Chunker::Chunker(std::int32_t numStripes,
         }
         _stripes.push_back(stripe);
     }
+    if (static_cast<std::int64_t>(_maxSubChunksPerSubStripeChunk) *
+        _numSubStripesPerStripe > std::numeric_limits<std::int32_t>::max()) {
+        throw std::runtime_error("Too many sub-chunks per chunk");
+    }
 }
 
 std::vector<std::int32_t> Chunker::getChunksIntersecting(Region const & r) const {
-- 
2.43.0


From 8756bd46f2686b1a1a774a6495cef503bc985a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 18/38] fix: Chunker::valid accepts some negative chunk ids

---
 src/Chunker.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index 1005494..c3cc376 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -310,7 +310,7 @@ std::vector<std::int32_t> Chunker::getAllSubChunks(std::int32_t chunkId) const {
 
 bool Chunker::valid(std::int32_t chunkId) const {
     std::int32_t const s = getStripe(chunkId);
-    return s >= 0 and s < _numStripes and
+    return chunkId >= 0 and s < _numStripes and
            getChunk(chunkId, s) < _stripes.at(s).numChunksPerStripe;
 }
 
-- 
2.43.0


From dbd11593fee37212ce1e8b4b8ef469747db25ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 19/38] fix: chunk lookups for an empty region read out of
 bounds

---
 src/Chunker.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index c3cc376..0505eac 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -130,6 +130,9 @@ std::vector<std::int32_t> Chunker::getChunksIntersecting(Region const & r) const
     std::vector<std::int32_t> chunkIds;
     // Find the stripes that intersect the bounding box of r.
     Box b = r.getBoundingBox().dilatedBy(Angle(BOX_EPSILON));
+    if (b.isEmpty()) {
+        return chunkIds;
+    }
     double ya = std::floor((b.getLat().getA() + Angle(0.5 * PI)) / _subStripeHeight);
     double yb = std::floor((b.getLat().getB() + Angle(0.5 * PI)) / _subStripeHeight);
     std::int32_t minSS = std::min(static_cast<std::int32_t>(ya), _numSubStripes - 1);
@@ -177,6 +180,9 @@ std::vector<SubChunks> Chunker::getSubChunksIntersecting(
     std::vector<SubChunks> chunks;
     // Find the stripes that intersect the bounding box of r.
     Box b = r.getBoundingBox().dilatedBy(Angle(BOX_EPSILON));
+    if (b.isEmpty()) {
+        return chunks;
+    }
     double ya = std::floor((b.getLat().getA() + Angle(0.5 * PI)) / _subStripeHeight);
     double yb = std::floor((b.getLat().getB() + Angle(0.5 * PI)) / _subStripeHeight);
     std::int32_t minSS = std::min(static_cast<std::int32_t>(ya), _numSubStripes - 1);
-- 
2.43.0


From fdff84c4011d759ba0fdb54698b3116deed8fb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 20/38] fix: too many sub-chunks are refused before their
 number overflows

---
 src/Chunker.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index 0505eac..ba6a46e 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -110,20 +110,20 @@ Chunker::Chunker(std::int32_t numStripes,
                                 (ss + 1) * _subStripeHeight - Angle(0.5 * PI));
             SubStripe subStripe;
             std::int32_t const nsc = computeNumSegments(ssLat, _subStripeHeight) / nc;
-            stripe.numSubChunksPerChunk += nsc;
-            subStripe.numSubChunksPerChunk = nsc;
             if (nsc > _maxSubChunksPerSubStripeChunk) {
                 _maxSubChunksPerSubStripeChunk = nsc;
+                if (static_cast<std::int64_t>(nsc) * _numSubStripesPerStripe >
+                    std::numeric_limits<std::int32_t>::max()) {
+                    throw std::runtime_error("Too many sub-chunks per chunk");
+                }
             }
+            stripe.numSubChunksPerChunk += nsc;
+            subStripe.numSubChunksPerChunk = nsc;
             subStripe.subChunkWidth = Angle(2.0 * PI) / (nsc * nc);
             _subStripes.push_back(subStripe);
         }
         _stripes.push_back(stripe);
     }
-    if (static_cast<std::int64_t>(_maxSubChunksPerSubStripeChunk) *
-        _numSubStripesPerStripe > std::numeric_limits<std::int32_t>::max()) {
-        throw std::runtime_error("Too many sub-chunks per chunk");
-    }
 }
 
 std::vector<std::int32_t> Chunker::getChunksIntersecting(Region const & r) const {
-- 
2.43.0


From a1b8ff040ba0b1b6e7e5f667af99058d4431cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 21/38] fix: nested lengths of encoded compound regions are
 checked against the buffer

---
 src/CompoundRegion.cc | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/CompoundRegion.cc b/src/CompoundRegion.cc
index cae1d51..0cadc8a 100644
--- a/src/CompoundRegion.cc
+++ b/src/CompoundRegion.cc
@@ -50,7 +50,7 @@ namespace {
 // A version of decodeU64 from codec.h that checks for buffer overruns and
 // increments the buffer pointer it is given.
 std::uint64_t consumeDecodeU64(std::uint8_t const *&buffer, std::uint8_t const *end) {
-    if (buffer + 8 > end) {
+    if (end - buffer < 8) {
         throw std::runtime_error("Encoded CompoundRegion is truncated.");
     }
     std::uint64_t result = decodeU64(buffer);
@@ -58,6 +58,18 @@ std::uint64_t consumeDecodeU64(std::uint8_t const *&buffer, std::uint8_t const *
     return result;
 }
 
+// Decode a length-prefixed operand, checking that it ends before the buffer
+// does, and increment the buffer pointer.
+std::unique_ptr<Region> consumeDecodeOperand(std::uint8_t const *&buffer, std::uint8_t const *end) {
+    std::uint64_t nBytes = consumeDecodeU64(buffer, end);
+    if (nBytes > static_cast<std::uint64_t>(end - buffer)) {
+        throw std::runtime_error("Encoded CompoundRegion is truncated.");
+    }
+    auto result = Region::decode(buffer, nBytes);
+    buffer += nBytes;
+    return result;
+}
+
 template <typename F>
 auto getUnionBounds(UnionRegion const &compound, F func) {
     auto bounds = func(compound.getOperand(0));
@@ -104,7 +116,7 @@ std::vector<std::uint8_t> CompoundRegion::_encode(std::uint8_t tc) const {
 std::array<std::unique_ptr<Region>, 2> CompoundRegion::_decode(
     std::uint8_t tc, std::uint8_t const *buffer, std::size_t nBytes) {
     std::uint8_t const *end = buffer + nBytes;
-    if (nBytes == 0) {
+    if (buffer == nullptr || nBytes == 0) {
         throw std::runtime_error("Encoded CompoundRegion is truncated.");
     }
     if (buffer[0] != tc) {
@@ -112,12 +124,8 @@ std::array<std::unique_ptr<Region>, 2> CompoundRegion::_decode(
     }
     ++buffer;
     std::array<std::unique_ptr<Region>, 2> result;
-    std::uint64_t nBytes1 = consumeDecodeU64(buffer, end);
-    result[0] = Region::decode(buffer, nBytes1);
-    buffer += nBytes1;
-    std::uint64_t nBytes2 = consumeDecodeU64(buffer, end);
-    result[1] = Region::decode(buffer, nBytes2);
-    buffer += nBytes2;
+    result[0] = consumeDecodeOperand(buffer, end);
+    result[1] = consumeDecodeOperand(buffer, end);
     if (buffer != end) {
         throw std::runtime_error("Encoded CompoundRegion is has unexpected additional bytes.");
     }
@@ -125,7 +133,7 @@ std::array<std::unique_ptr<Region>, 2> CompoundRegion::_decode(
 }
 
 std::unique_ptr<CompoundRegion> CompoundRegion::decode(std::uint8_t const *buffer, size_t n) {
-    if (n == 0) {
+    if (buffer == nullptr || n == 0) {
         throw std::runtime_error("Encoded CompoundRegion is truncated.");
     }
     switch (buffer[0]) {
-- 
2.43.0


From 16eac782396b27fc8fe9d504ff905c06c5a521be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 22/38] fix: ConvexPolygon::decode looks at its length before
 its bytes

---
 src/ConvexPolygon.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index 598ee8a..10b8719 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -368,8 +368,8 @@ std::vector<std::uint8_t> ConvexPolygon::encode() const {
 std::unique_ptr<ConvexPolygon> ConvexPolygon::decode(std::uint8_t const * buffer,
                                                      size_t n)
 {
-    if (buffer == nullptr || *buffer != TYPE_CODE ||
-        n < 1 + 24*3 || (n - 1) % 24 != 0) {
+    if (buffer == nullptr ||
+        n < 1 + 24*3 || (n - 1) % 24 != 0 || *buffer != TYPE_CODE) {
         throw std::runtime_error("Byte-string is not an encoded ConvexPolygon");
     }
     std::unique_ptr<ConvexPolygon> poly(new ConvexPolygon);
-- 
2.43.0


From 00219db803461345ccdf1120ab141f014fb6f81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 23/38] fix: encodeU64 converts to double on platforms without
 optimized paths

---
 include/lsst/sphgeom/codec.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/lsst/sphgeom/codec.h b/include/lsst/sphgeom/codec.h
index dea0c62..8230159 100644
--- a/include/lsst/sphgeom/codec.h
+++ b/include/lsst/sphgeom/codec.h
@@ -98,8 +98,7 @@ inline void encodeU64(std::uint64_t item, std::vector<std::uint8_t> & buffer) {
     auto ptr = reinterpret_cast<std::uint8_t const *>(&item);
     buffer.insert(buffer.end(), ptr, ptr + 8);
 #else
-    union { std::uint64_t u; double d; };
-    d = item;
+    std::uint64_t const u = item;
     buffer.push_back(static_cast<std::uint8_t>(u));
     buffer.push_back(static_cast<std::uint8_t>(u >> 8));
     buffer.push_back(static_cast<std::uint8_t>(u >> 16));
-- 
2.43.0


From e0f4ec5e0c40906fde78e0f4bd379104a0cd4149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 24/38] fix: normalizing a vector with a NaN component accesses
 memory out of bounds

---
 src/Vector3d.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Vector3d.cc b/src/Vector3d.cc
index f3dc349..44d75af 100644
--- a/src/Vector3d.cc
+++ b/src/Vector3d.cc
@@ -55,12 +55,16 @@ double Vector3d::normalize() {
     //      ((|x| > |z|) << 2) +
     //      ((|x| > |y|) << 1) +
     //       (|y| > |z|)
+    //
+    // No comparison involving a NaN holds, so that index 4 occurs for a NaN
+    // y component: it is then chosen as the largest, and propagated. Index 3
+    // does not occur.
     static std::uint8_t const COMPONENT[8][4] = {
         {0, 1, 2, UNUSED},
         {0, 2, 1, UNUSED},
         {1, 0, 2, UNUSED},
-        {UNUSED, UNUSED, UNUSED, UNUSED},
-        {UNUSED, UNUSED, UNUSED, UNUSED},
+        {0, 2, 1, UNUSED},
+        {0, 2, 1, UNUSED},
         {2, 0, 1, UNUSED},
         {1, 2, 0, UNUSED},
         {2, 1, 0, UNUSED}
-- 
2.43.0


From 38219249c143075caec4c7b1e2dffb8a497f7eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 25/38] fix: the hull of a single point accesses a second one

---
 src/ConvexPolygon.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index 10b8719..cc773bd 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -62,7 +62,7 @@ char const * const NOT_ENOUGH_POINTS =
 std::vector<UnitVector3d>::iterator findPlane(
     std::vector<UnitVector3d> & points)
 {
-    if (points.empty()) {
+    if (points.size() < 2) {
         throw std::invalid_argument(NOT_ENOUGH_POINTS);
     }
     // Starting with the first point v0, find a distinct second point v1.
-- 
2.43.0


From 45f0189b953e8ba0dfc4c0d41d2e9bd6a45eb88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 26/38] fix: hull seeds ignored points opposite to the segment
 found so far

---
 src/ConvexPolygon.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index cc773bd..524150e 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -124,10 +124,15 @@ std::vector<UnitVector3d>::iterator findTriangle(
         // discard v and continue.
         int v0v = orientation(n, v0, *v);
         int vv1 = orientation(n, *v, v1);
-        if (v0v == vv1) {
+        int v0v1 = orientation(n, v0, v1);
+        if (v0v == v0v1 && vv1 == v0v1) {
             continue;
         }
-        int v0v1 = orientation(n, v0, v1);
+        // If -v is in the interior of the great circle segment (v0, v1), the
+        // segment from v0 through v1 to v contains antipodal points.
+        if (v0v == vv1) {
+            throw std::invalid_argument(FOUND_ANTIPODAL_POINT);
+        }
         // If v1 is in the interior of (v0, v), replace v1 with v and continue.
         if (v0v1 == -vv1) {
             v1 = *v; continue;
-- 
2.43.0


From 093e5e376a84ecb129d268c16614c646c49684e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 27/38] fix: points in the interior of a hull edge became
 vertices

---
 src/ConvexPolygon.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index 524150e..5fbb1f0 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -222,6 +222,15 @@ void computeHull(std::vector<UnitVector3d> & points) {
             // so that -v is inside the current hull.
             throw std::invalid_argument(FOUND_ANTIPODAL_POINT);
         }
+        // If v lies in the interior of an edge of the current hull, that edge
+        // is the only one without counter-clockwise orientation, and v can
+        // be ignored.
+        if (toCCW == fromCCW) {
+            i = (fromCCW == points.begin() ? hullEnd : fromCCW) - 1;
+            if (orientation(*v, *i, *fromCCW) == 0) {
+                continue;
+            }
+        }
         // Insert v into the current hull at fromCCW, and remove
         // all vertices between fromCCW and toCCW.
         if (toCCW < fromCCW) {
-- 
2.43.0


From 3afbec18b6bcca573b4ef49eb4851e75df9d3902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 28/38] fix: centroids of small triangles and polygons lie far
 outside them

---
 src/ConvexPolygonImpl.h | 21 ++++++++++++++++++++-
 src/utils.cc            | 10 ++++++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/ConvexPolygonImpl.h b/src/ConvexPolygonImpl.h
index 83ce1e5..5a4653a 100644
--- a/src/ConvexPolygonImpl.h
+++ b/src/ConvexPolygonImpl.h
@@ -62,7 +62,26 @@ UnitVector3d centroid(VertexIterator const begin, VertexIterator const end) {
     Vector3d cm;
     VertexIterator i = std::prev(end);
     VertexIterator j = begin;
-    for (; j != end; i = j, ++j) {
+    // The terms of that formula nearly cancel for small polygons. Sum the
+    // centroids of the triangles in a fan instead.
+    bool isSmall = true;
+    for (; j != end; ++j) {
+        isSmall = isSmall && (*j - *begin).getSquaredNorm() < 1.0e-10;
+    }
+    if (isSmall) {
+        for (i = std::next(begin), j = std::next(i); j != end; i = j, ++j) {
+            Vector3d c = getWeightedCentroid(*begin, *i, *j);
+            cm += c.dot(*begin) < 0.0 ? -c : c;
+        }
+        if (cm == Vector3d()) {
+            // The polygon is too thin for its area to be computed.
+            for (j = begin; j != end; ++j) {
+                cm += Vector3d(*j);
+            }
+        }
+        return UnitVector3d(cm);
+    }
+    for (j = begin; j != end; i = j, ++j) {
         Vector3d v = (*i).robustCross(*j);
         double s = 0.5 * v.normalize();
         double c = (*i).dot(*j);
diff --git a/src/utils.cc b/src/utils.cc
index 77c97e4..524a6c9 100644
--- a/src/utils.cc
+++ b/src/utils.cc
@@ -95,6 +95,16 @@ Vector3d getWeightedCentroid(UnitVector3d const & v0,
     //
     // https://openlibrary.org/books/OL25493734M/The_centroid_and_inertia_tensor_for_a_spherical_triangle
 
+    // The terms of the formula below nearly cancel for small triangles, which
+    // are almost flat. The relative error of treating them as flat is less
+    // than the squared length of their edges.
+    Vector3d e1 = v1 - v0;
+    Vector3d e2 = v2 - v0;
+    if (e1.getSquaredNorm() < 1.0e-10 && e2.getSquaredNorm() < 1.0e-10) {
+        double area = 0.5 * e1.cross(e2).dot(v0);
+        return (Vector3d(v0) + Vector3d(v1) + Vector3d(v2)) * (area / 3.0);
+    }
+
     Vector3d x01 = v0.robustCross(v1); // twice the cross product of v0 and v1
     Vector3d x12 = v1.robustCross(v2);
     Vector3d x20 = v2.robustCross(v0);
-- 
2.43.0


From 537b40277d2390cf9a40308bff6c92de96201b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:45 +0000
Subject: [PATCH 29/38] fix: UnitVector3d::orthogonalTo for vectors of
 different lengths

The product of the sum and the difference is inaccurate unless both vectors
have about the same length: for (1,0,0) and (0,1e9,0) the result was not
orthogonal to the first.
---
 src/UnitVector3d.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/UnitVector3d.cc b/src/UnitVector3d.cc
index 9167790..746ae12 100644
--- a/src/UnitVector3d.cc
+++ b/src/UnitVector3d.cc
@@ -48,8 +48,20 @@ UnitVector3d UnitVector3d::orthogonalTo(Vector3d const & v) {
 UnitVector3d UnitVector3d::orthogonalTo(Vector3d const & v1,
                                         Vector3d const & v2)
 {
-    Vector3d n = (v2 + v1).cross(v2 - v1);
-    if (n.isZero()) {
+    // The cross product of the sum and the difference of two vectors is
+    // accurate only if they have about the same length.
+    double s1 = v1.getSquaredNorm();
+    double s2 = v2.getSquaredNorm();
+    Vector3d w = v2;
+    double minSquaredNorm = 0.0;
+    if (s2 > 0.0 && std::fabs(s1 - s2) > 1e-15 * s1) {
+        w = v2 * std::sqrt(s1 / s2);
+        // The scaled vector is v2 up to a few rounding errors, so that
+        // nothing is known about the direction of a smaller product.
+        minSquaredNorm = 1e-30 * s1 * s1;
+    }
+    Vector3d n = (w + v1).cross(w - v1);
+    if (n.isZero() || n.getSquaredNorm() < minSquaredNorm) {
         return orthogonalTo(v1);
     }
     return UnitVector3d(n);
-- 
2.43.0


From 7f5c8d4b187f4e283c31b3ebb6b0f5023ab90035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 30/38] fix: RangeSet.isValid in Python returned the
 cardinality

---
 python/lsst/sphgeom/_rangeSet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/sphgeom/_rangeSet.cc b/python/lsst/sphgeom/_rangeSet.cc
index c6559ba..e09fccb 100644
--- a/python/lsst/sphgeom/_rangeSet.cc
+++ b/python/lsst/sphgeom/_rangeSet.cc
@@ -206,7 +206,7 @@ void defineClass(py::class_<RangeSet, std::shared_ptr<RangeSet>> &cls) {
     cls.def("cardinality", &RangeSet::cardinality);
     // max_size() and swap() are omitted. The former is a C++ container
     // requirement, and the latter doesn't seem relevant to Python.
-    cls.def("isValid", &RangeSet::cardinality);
+    cls.def("isValid", &RangeSet::isValid);
     cls.def("ranges", &ranges);
 
     cls.def("__str__",
-- 
2.43.0


From 3af9d1869fcd000bc04960242348132dcf11f24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 31/38] fix: Q3C and MQ3C neighborhood() could not return their
 result to Python

---
 python/lsst/sphgeom/_mq3cPixelization.cc | 1 +
 python/lsst/sphgeom/_q3cPixelization.cc  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/python/lsst/sphgeom/_mq3cPixelization.cc b/python/lsst/sphgeom/_mq3cPixelization.cc
index c2f8509..edcc22f 100644
--- a/python/lsst/sphgeom/_mq3cPixelization.cc
+++ b/python/lsst/sphgeom/_mq3cPixelization.cc
@@ -27,6 +27,7 @@
  * along with this program.  If not, see <http://www.gnu.org/licenses/>.
  */
 #include "pybind11/pybind11.h"
+#include "pybind11/stl.h"
 
 #include "lsst/sphgeom/python.h"
 
diff --git a/python/lsst/sphgeom/_q3cPixelization.cc b/python/lsst/sphgeom/_q3cPixelization.cc
index 8c9ec8f..79be402 100644
--- a/python/lsst/sphgeom/_q3cPixelization.cc
+++ b/python/lsst/sphgeom/_q3cPixelization.cc
@@ -27,6 +27,7 @@
  * along with this program.  If not, see <http://www.gnu.org/licenses/>.
  */
 #include "pybind11/pybind11.h"
+#include "pybind11/stl.h"
 
 #include "lsst/sphgeom/python.h"
 
-- 
2.43.0


From 4b89fee8927493925b82c5b6e9c07ef16b643edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 32/38] fix: POS circles and polygons with coordinates that are
 not finite were accepted

---
 python/lsst/sphgeom/_continue_class.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/lsst/sphgeom/_continue_class.py b/python/lsst/sphgeom/_continue_class.py
index b7979a7..252d029 100644
--- a/python/lsst/sphgeom/_continue_class.py
+++ b/python/lsst/sphgeom/_continue_class.py
@@ -130,6 +130,8 @@ class Region:
         shape, *coordinates = pos.split()
         coordinates = tuple(float(c) for c in coordinates)
         n_floats = len(coordinates)
+        if shape != "RANGE" and not all(math.isfinite(c) for c in coordinates):
+            raise ValueError(f"Only a RANGE can have coordinates that are not finite, unlike '{pos}'.")
         if shape == "CIRCLE":
             if n_floats != 3:
                 raise ValueError(f"CIRCLE requires 3 numbers but got {n_floats} in '{pos}'.")
-- 
2.43.0


From 1ba1b4df4e40e9a72c2bc40a17c1c3adc31d9121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 33/38] fix: RangeSet::Iterator - n moved forward

---
 include/lsst/sphgeom/RangeSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lsst/sphgeom/RangeSet.h b/include/lsst/sphgeom/RangeSet.h
index e0e7ac4..ea173bc 100644
--- a/include/lsst/sphgeom/RangeSet.h
+++ b/include/lsst/sphgeom/RangeSet.h
@@ -149,7 +149,7 @@ public:
         Iterator operator--(int) { Iterator i(*this); p -= 2; return i; }
 
         Iterator operator+(ptrdiff_t n) const { return Iterator(p + 2 * n); }
-        Iterator operator-(ptrdiff_t n) const { return Iterator(p + 2 * n); }
+        Iterator operator-(ptrdiff_t n) const { return Iterator(p - 2 * n); }
 
         Iterator & operator+=(ptrdiff_t n) { p += 2 * n; return *this; }
         Iterator & operator-=(ptrdiff_t n) { p -= 2 * n; return *this; }
-- 
2.43.0


From 829f68d1193d6427e794dff4a15e18426c6e2b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 34/38] fix: HEALPix envelopes missed pixels, or failed for
 empty regions and single points

The pixels with centers in the region, dilated by one, do not cover regions
that contain no pixel centers, and circles with opening angle 0 or less were
rejected. Ask hpgeom for all the pixels that overlap the region instead, and
avoid circles beyond a hemisphere and full longitude ranges in radians, which
it answers incompletely.
---
 python/lsst/sphgeom/_healpixPixelization.py | 81 +++++++++++++--------
 1 file changed, 52 insertions(+), 29 deletions(-)

diff --git a/python/lsst/sphgeom/_healpixPixelization.py b/python/lsst/sphgeom/_healpixPixelization.py
index abb0880..7eac468 100644
--- a/python/lsst/sphgeom/_healpixPixelization.py
+++ b/python/lsst/sphgeom/_healpixPixelization.py
@@ -85,7 +85,7 @@ class HealpixPixelization(PixelizationABC):
         if maxRanges > 0:
             # If this is important, the rangeset can be consolidated.
             raise NotImplementedError("HealpixPixelization: maxRanges not implemented")
-        pixels_highres = self._interior_pixels_from_region(self._nside_highres, region)
+        pixels_highres = self._pixels_from_region(self._nside_highres, region, inclusive=True)
 
         # Dilate the high resolution pixels by one to ensure that the full
         # region is completely covered at high resolution.
@@ -99,7 +99,7 @@ class HealpixPixelization(PixelizationABC):
         if maxRanges > 0:
             # If this is important, the rangeset can be consolidated.
             raise NotImplementedError("HealpixPixelization: maxRanges not implemented")
-        pixels = self._interior_pixels_from_region(self._nside, region)
+        pixels = self._pixels_from_region(self._nside, region)
 
         # Check that the corners of the pixels are entirely enclosed in
         # the region
@@ -113,15 +113,18 @@ class HealpixPixelization(PixelizationABC):
 
         return RangeSet(pixels)
 
-    def _interior_pixels_from_region(self, nside: int, region: Region):
-        """Get interior pixels from a region.
+    def _pixels_from_region(self, nside: int, region: Region, inclusive: bool = False):
+        """Get pixels from a region.
 
         Parameters
         ----------
         nside : `int`
-            Healpix nside to retrieve interior pixels.
+            Healpix nside to retrieve pixels.
         region : `lsst.sphgeom.Region`
-            Sphgeom region to find interior pixels.
+            Sphgeom region to find pixels.
+        inclusive : `bool`, optional
+            Get all the pixels that overlap the region, rather than those
+            with centers inside of it.
 
         Returns
         -------
@@ -129,45 +132,65 @@ class HealpixPixelization(PixelizationABC):
             Array of pixels at resolution nside, nest ordering.
         """
         if isinstance(region, Circle):
-            center = LonLat(region.getCenter())
-            pixels = hpg.query_circle(
-                nside,
-                center.getLon().asRadians(),
-                center.getLat().asRadians(),
-                region.getOpeningAngle().asRadians(),
-                degrees=False,
-            )
+            pixels = self._pixels_from_circle(nside, region, inclusive)
         elif isinstance(region, ConvexPolygon):
             vertices = np.array([[v.x(), v.y(), v.z()] for v in region.getVertices()])
-            pixels = hpg.query_polygon_vec(nside, vertices)
+            pixels = hpg.query_polygon_vec(nside, vertices, inclusive=inclusive)
         elif isinstance(region, Box):
+            if region.isEmpty():
+                return np.zeros(0, dtype=np.int64)
+            # hpgeom only recognizes the full circle of longitudes in degrees.
             pixels = hpg.query_box(
                 nside,
-                region.getLon().getA().asRadians(),
-                region.getLon().getB().asRadians(),
-                region.getLat().getA().asRadians(),
-                region.getLat().getB().asRadians(),
-                degrees=False,
+                region.getLon().getA().asDegrees(),
+                360.0 if region.getLon().isFull() else region.getLon().getB().asDegrees(),
+                region.getLat().getA().asDegrees(),
+                region.getLat().getB().asDegrees(),
+                inclusive=inclusive,
             )
         elif isinstance(region, Ellipse):
             # hpgeom supports query_ellipse given center, alpha, beta,
             # and orientation. However, until we figure out how to get
             # the orientation out of the Ellipse region, we will use the
             # bounding circle as was done with healpy.
-            _circle = region.getBoundingCircle()
-            center = LonLat(_circle.getCenter())
-            pixels = hpg.query_circle(
-                nside,
-                center.getLon().asRadians(),
-                center.getLat().asRadians(),
-                _circle.getOpeningAngle().asRadians(),
-                degrees=False,
-            )
+            pixels = self._pixels_from_circle(nside, region.getBoundingCircle(), inclusive)
         else:
             raise ValueError("Invalid region.")
 
         return pixels
 
+    def _pixels_from_circle(self, nside: int, circle: Circle, inclusive: bool):
+        if circle.isEmpty():
+            return np.zeros(0, dtype=np.int64)
+        radius = circle.getOpeningAngle().asRadians()
+        if radius > 0.5 * np.pi:
+            # hpgeom can miss the pixels around the point opposite to the
+            # center, so find the pixels outside of the circle instead.
+            hole = np.pi - radius
+            if inclusive:
+                hole -= hpg.max_pixel_radius(nside, degrees=False)
+            pixels = np.arange(hpg.nside_to_npixel(nside))
+            if hole <= 0.0:
+                return pixels
+            center = LonLat(-circle.getCenter())
+            return np.setdiff1d(
+                pixels,
+                hpg.query_circle(
+                    nside, center.getLon().asRadians(), center.getLat().asRadians(), hole, degrees=False
+                ),
+                assume_unique=True,
+            )
+        center = LonLat(circle.getCenter())
+        return hpg.query_circle(
+            nside,
+            center.getLon().asRadians(),
+            center.getLat().asRadians(),
+            # hpgeom insists on a positive radius.
+            max(radius, np.finfo(float).tiny),
+            inclusive=inclusive,
+            degrees=False,
+        )
+
     def __eq__(self, other):
         if isinstance(other, HealpixPixelization):
             return self._level == other._level
-- 
2.43.0


From cfafbdeb00ae98d32e35fa796fb08b795f4eced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 35/38] fix: Box::getBoundingBox3d missed points of the box by
 a rounding in z

The z bounds were padded by EPSILON only, less than the error of the
latitude that Box::contains computes for a point. Pad them like x and y.
---
 src/Box.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Box.cc b/src/Box.cc
index 414f477..67a3ad2 100644
--- a/src/Box.cc
+++ b/src/Box.cc
@@ -184,8 +184,8 @@ Box3d Box::getBoundingBox3d() const {
     ymin = std::max(-1.0, ymin);
     ymax = std::min(1.0, ymax);
     // Compute z extrema.
-    double zmin = std::max(-1.0, slata - EPSILON);
-    double zmax = std::min(1.0, slatb + EPSILON);
+    double zmin = std::max(-1.0, slata - 2.5 * EPSILON);
+    double zmax = std::min(1.0, slatb + 2.5 * EPSILON);
     return Box3d(Interval1d(xmin, xmax),
                  Interval1d(ymin, ymax),
                  Interval1d(zmin, zmax));
-- 
2.43.0


From 186ec048b60d3f35a0b1b7c33c9eb757d9f4495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:06 +0000
Subject: [PATCH 36/38] fix: Circle::expandTo shrank circles that nearly
 contain each other

If one circle contains the other by less than the margin for numerical error,
half the sum of the distance and the opening angles is less than the larger
opening angle: the center moved and points at the far side were lost.
---
 src/Circle.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Circle.cc b/src/Circle.cc
index 0b1ba22..b4dde5e 100644
--- a/src/Circle.cc
+++ b/src/Circle.cc
@@ -32,6 +32,7 @@
 
 #include "lsst/sphgeom/Circle.h"
 
+#include <algorithm>
 #include <ostream>
 #include <stdexcept>
 
@@ -170,7 +171,10 @@ Circle & Circle::expandTo(Circle const & x) {
         return *this;
     }
     // The circles intersect or are disjoint.
+    // The result must not be smaller than either of them, which matters if one
+    // contains the other by less than the error margin above.
     Angle o = 0.5 * (cc + _openingAngle + x._openingAngle);
+    o = std::max(o, std::max(_openingAngle, x._openingAngle));
     if (o + 2.0 * Angle(MAX_ASIN_ERROR) >= Angle(PI)) {
         *this = full();
         return *this;
@@ -181,7 +185,7 @@ Circle & Circle::expandTo(Circle const & x) {
     // with normal n that span from _center.rotatedAround(n, -_openingAngle)
     // to x._center.rotatedAround(n, x._openingAngle). The MBC center is the
     // midpoint of this interval.
-    Angle r = o - _openingAngle;
+    Angle r = std::min(o - _openingAngle, Angle(cc));
     // Rotate _center by angle r around n to obtain the MBC center. This is
     // done using Rodriques' formula, simplified by taking advantage of the
     // orthogonality of _center and n.
-- 
2.43.0


From 06ca7ab3b426ad3955059f0dd9a0b6aaca77ebb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:43 +0000
Subject: [PATCH 37/38] fix: Ellipse lost the shape of small ellipses to an arc
 cosine

---
 src/Ellipse.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Ellipse.cc b/src/Ellipse.cc
index fc3bcb7..92da46f 100644
--- a/src/Ellipse.cc
+++ b/src/Ellipse.cc
@@ -94,8 +94,8 @@ Ellipse::Ellipse(UnitVector3d const & f1, UnitVector3d const & f2, Angle alpha)
                   b1.x(), b1.y(), b1.z(),
                   b2.x(), b2.y(), b2.z());
     // Compute _b.
-    double r = std::min(1.0, std::max(-1.0, cos(alpha) / cos(_gamma)));
-    _b = Angle(std::acos(r) - 0.5 * PI);
+    double s = std::sqrt(std::max(0.0, sin(alpha + _gamma) * sin(alpha - _gamma)));
+    _b = Angle(std::atan2(s, cos(alpha)) - 0.5 * PI);
     if (_a.asRadians() <= 0.0 && _b > _a) {
         _b = _a;
     } else if (_a.asRadians() > 0.0 && _b < _a) {
@@ -158,8 +158,8 @@ Ellipse::Ellipse(UnitVector3d const & center,
                   center.x(), center.y(), center.z());
     _a = alpha - Angle(0.5 * PI);
     _b = beta - Angle(0.5 * PI);
-    double d = std::min(1.0, std::max(-1.0, cos(alpha) / cos(beta)));
-    _gamma = Angle(std::acos(d));
+    double s = std::sqrt(std::max(0.0, sin(alpha + beta) * sin(alpha - beta)));
+    _gamma = Angle(std::atan2(s, std::fabs(cos(alpha))));
     _tana = std::fabs(tan(_a));
     _tanb = std::fabs(tan(_b));
 }
-- 
2.43.0


From 5da863b7aa6b9f0888e9bb376dc60a261481ce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:14 +0000
Subject: [PATCH 38/38] fix: Ellipse with a zero semi-axis was empty by a
 rounding error

---
 src/Ellipse.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Ellipse.cc b/src/Ellipse.cc
index 92da46f..be5022b 100644
--- a/src/Ellipse.cc
+++ b/src/Ellipse.cc
@@ -160,6 +160,9 @@ Ellipse::Ellipse(UnitVector3d const & center,
     _b = beta - Angle(0.5 * PI);
     double s = std::sqrt(std::max(0.0, sin(alpha + beta) * sin(alpha - beta)));
     _gamma = Angle(std::atan2(s, std::fabs(cos(alpha))));
+    // An ellipse with non-negative semi-axes is not empty, so that γ must not
+    // exceed the semi-axis angle α by a rounding error.
+    _gamma = std::min(_gamma, Angle(0.5 * PI) + _a);
     _tana = std::fabs(tan(_a));
     _tanb = std::fabs(tan(_b));
 }
-- 
2.43.0

