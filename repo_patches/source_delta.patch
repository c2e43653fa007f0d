From 5bf02e577c3831303557bcd84533a0630eb477a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:43 +0000
Subject: [PATCH 01/16] fix: X tristimulus of standard illuminant B (0.99072,
 not 1.99072)

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 28704ee..f5a8630 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1352,7 +1352,7 @@ class Spectrum
 
 // standard illuminants
 static constexpr Tristimulus Illuminant_A(1.09850f, 1.f, 0.35585f);
-static constexpr Tristimulus Illuminant_B(1.99072f, 1.f, 0.85223f);
+static constexpr Tristimulus Illuminant_B(0.99072f, 1.f, 0.85223f);
 static constexpr Tristimulus Illuminant_C(0.98074f, 1.0f, 1.18232f);
 static constexpr Tristimulus Illuminant_D50(0.96422f, 1.0f, 0.82521f);
 static constexpr Tristimulus Illuminant_D55(0.95682f, 1.0f, 0.92149f);
-- 
2.43.0


From 5949503da2ea45a0dd1192573b6687be764c1763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:43 +0000
Subject: [PATCH 02/16] fix: S-Log3 encoding applied the 261.5 slope inside the
 logarithm

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index f5a8630..57c02ae 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -669,7 +669,7 @@ class OTF
 
     static const float Y_to_SLog3(const float &x)
     {
-        const auto y = x > 0.01125f ? (420.f + log10f((x + 0.01f) / (0.19f) * 261.5f))
+        const auto y = x > 0.01125f ? (420.f + log10f((x + 0.01f) / (0.19f)) * 261.5f)
                                     : (x * (171.2102946929f - 95.f) / 0.01125f + 95.f);
         return y / 1023.f;
     }
-- 
2.43.0


From 6f8a9b2b24a090defb2d4f7d6de1d85be8fbefba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:43 +0000
Subject: [PATCH 03/16] fix: Planckian locus y(x) used the sub-2222K cubic for
 2222K-4000K

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 57c02ae..4de2268 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -353,12 +353,12 @@ class Tristimulus
     static constexpr Tristimulus fromPlanckianLocus(const float &T, const float &Y = 1.f)
     {
         const float x =
-            (T < 4000.f) ? ((-0.2661239e9f / (T * T * T)) - (0.2343580e6f / (T * T)) + (0.8776956e3f / T) + 0.179910f)
+            (T < 4000.f) ? ((-0.2661239e9f / (T * T * T)) - (0.2343589e6f / (T * T)) + (0.8776956e3f / T) + 0.179910f)
                          : ((-3.0258469e9f / (T * T * T)) + (2.1070379e6f / (T * T)) + (0.2226347e3f / T) + 0.240390f);
         const float y =
             (T < 2222.f)
                 ? ((-1.1063814f * x * x * x) - (1.34811020f * x * x) + (2.18555832f * x) - 0.20219683f)
-                : ((T < 4000.f) ? ((-1.1063814f * x * x * x - 1.34811020f * x * x + 2.18555832f * x - 0.20219683f))
+                : ((T < 4000.f) ? ((-0.9549476f * x * x * x - 1.37418593f * x * x + 2.09137015f * x - 0.16748867f))
                                 : ((3.0817580f * x * x * x - 5.87338670f * x * x + 3.75112997f * x - 0.37001483f)));
         return Tristimulus(Y, x, y).fromYxy();
     }
-- 
2.43.0


From 3de703235aea0ad20396635b20e948c410e4fef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:43 +0000
Subject: [PATCH 04/16] fix: sign of the OKLAB XYZ-to-LMS coefficient m1[1][0]

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 4de2268..fad9508 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1419,7 +1419,7 @@ static const Tristimulus ICtCp_to_XYZ(const Tristimulus &icc)
 static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
 {
     // https://bottosson.github.io/posts/oklab/
-    constexpr auto m1  = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, -0.0329845436f, 0.9293118715f,
+    constexpr auto m1  = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, 0.0329845436f, 0.9293118715f,
          0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto m2  = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
          0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
@@ -1454,7 +1454,7 @@ static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
 
 static const Tristimulus OKLAB_to_XYZ(const Tristimulus &lab)
 {
-    constexpr auto    m1   = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, -0.0329845436f, 0.9293118715f,
+    constexpr auto    m1   = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, 0.0329845436f, 0.9293118715f,
              0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto    m2   = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
              0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
-- 
2.43.0


From 38b2897ae5185eb14c4b420f10b6478a13c422a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:43 +0000
Subject: [PATCH 05/16] fix: XYZ_to_OKLAB printed debug output on every
 conversion

---
 include/colorsystem.hpp | 24 ------------------------
 1 file changed, 24 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index fad9508..4df30dc 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1423,30 +1423,6 @@ static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
          0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto m2  = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
          0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
-    constexpr auto m1i = m1.invert();
-    constexpr auto m2i = m2.invert();
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m1[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m2[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m1i[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m2i[i]);
-    }
-    printf("\n");
-
     const Tristimulus lms = xyz.apply(m1);
     const Tristimulus dash(cbrtf(lms[0]), cbrtf(lms[1]), cbrtf(lms[2]));
     return dash.apply(m2);
-- 
2.43.0


From e7bd6a7afd7965fd43f7b3fea135ed8e4b2c6d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:43 +0000
Subject: [PATCH 06/16] fix: MemoryStream::putUint8 did not advance the cursor
 when overwriting

---
 include/colorsystem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 4df30dc..7312afe 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -923,6 +923,7 @@ class MemoryStream
         if (ptr_ < s)
         {
             buffer_[ptr_] = uc;
+            ptr_++;
             return;
         }
         else if (ptr_ == s)
-- 
2.43.0


From 61a95839cbfd791b345e6c6d16ee8c567f3e584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:43 +0000
Subject: [PATCH 07/16] fix: MemoryStream::put_at shrank the buffer instead of
 growing it

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 7312afe..7340559 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -872,8 +872,8 @@ class MemoryStream
     }
     void put_at(size_t abs, uint8_t val)
     {
-        if (abs < buffer_.size())
-            buffer_.resize(abs);
+        if (abs >= buffer_.size())
+            buffer_.resize(abs + 1);
         buffer_[abs] = val;
     }
     size_t read_at(void *buffer, size_t s, Pointer p)
-- 
2.43.0


From c0fdfaa8c2ba14ca30bc656993dd9c429efe4f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:43 +0000
Subject: [PATCH 08/16] fix: MemoryStream::putSubstr ran out of bounds for
 length 0

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 7340559..e9eb190 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1218,7 +1218,7 @@ class MemoryStream
     void putDouble(const double v) { putUint64(*(uint64_t *)&v); }
     void putSubstr(const std::string &str, size_t len)
     {
-        for (int i = 0; i < len - 1; i++)
+        for (size_t i = 0; i + 1 < len; i++)
         {
             putUint8(str[i]);
         }
-- 
2.43.0


From 44f53b18d8754d39716dfc91b3996424ec7bc8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:43 +0000
Subject: [PATCH 09/16] fix: MemoryStream::putString wrote no length and
 dropped the last character

---
 include/colorsystem.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index e9eb190..9a6174a 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1225,7 +1225,11 @@ class MemoryStream
         if (len > 0)
             putUint8(0);
     }
-    void putString(const std::string &str) { putSubstr(str, str.size()); }
+    void putString(const std::string &str)
+    {
+        putUint32((uint32_t)(str.size() + 1));
+        putSubstr(str, str.size() + 1);
+    }
 };
 
 static Gamut loadGamutFromICCProfileMemory(const void *mem, size_t size)
-- 
2.43.0


From ddbb344ff0cabef1afac2a356b6f4875d918c25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:43 +0000
Subject: [PATCH 10/16] fix: Spectrum::fetch did not interpolate in the first
 sample interval

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 9a6174a..6601bc3 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1254,8 +1254,8 @@ class Spectrum
         const int   index = (int)(count * (t - lo) / (hi - lo));
         const float l     = index * (hi - lo) / count;
         const float h     = (index + 1) * (hi - lo) / count;
-        return (index >= count) ? sample[count]
-               : (index <= 0)   ? sample[0]
+        return (index >= count || t >= hi) ? sample[count]
+               : !(t > lo)      ? sample[0]
                                 : lerp(sample[index], sample[index + 1], (t - l - lo) / (h - l));
     }
     constexpr float fetch(const float &lambda) const { return fetch(s_.data(), 400, 380.f, 779.f, lambda); }
-- 
2.43.0


From 17be49f73f484b4ab4f63732d9bfca44098a436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:43 +0000
Subject: [PATCH 11/16] fix: Planck's law prefactor constant h*c^2 was 0.08%
 low

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 6601bc3..4a07583 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1278,7 +1278,7 @@ class Spectrum
         static const double c    = 2.99792458e+8;  // Speed of light         m/s
         static const double k    = 1.38064880e-23; // Boltzmann constant     J/K
         static const double hc   = 1.984832809e-25;
-        static const double hcc  = 5.950379064e-17;
+        static const double hcc  = 5.955213792e-17;
         static const double hc_k = 1.438776827e-2;
         static const double arg1 = 2 * hcc;                                     // J*s*m/s*m/s                 = J*m^2/s
         static const double arg2 = (h * c) / k;                                 // J*s*m/s / (J/K) = J*m/(J/K) = m * K
-- 
2.43.0


From 5b4778e9d1dfc082c5dc09473c689932b3db0ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:43 +0000
Subject: [PATCH 12/16] fix: SOLVER::solve ignored a failed decomposition

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 4a07583..953fc56 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7739,7 +7739,7 @@ namespace SOLVER
         float  wmax, thresh;
 
         int r = svdcmp(A, W, V);
-        if (r == 0)
+        if (r < 0)
         {
             return r;
         }
-- 
2.43.0


From 811486882b8856b56643696140fb5825834a7aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:43 +0000
Subject: [PATCH 13/16] fix: Corrector::makeGamut passed the patch-to-XYZ
 matrix as the XYZ-to-patch matrix

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 953fc56..3e42967 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7841,7 +7841,7 @@ class Corrector
     static Gamut makeGamut(const char *name, std::vector<Tristimulus> &patch, const Spectrum &light = CIE_D65,
         const Observer &observer = CIE1931)
     {
-        return Gamut(name, solve(patch, light, observer));
+        return Gamut(name, solve(patch, light, observer).invert());
     }
 };
 
-- 
2.43.0


From 2a6074537aaae532a39bbf4b1e115b1363e430da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:26 +0000
Subject: [PATCH 14/16] fix: MemoryStream::read_at read out of bounds for
 positions of 2^31 and above

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 3e42967..f1dc575 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -878,9 +878,9 @@ class MemoryStream
     }
     size_t read_at(void *buffer, size_t s, Pointer p)
     {
-        int r = (int)buffer_.size() - (int)p;
-        if (r < 0)
+        if (p > buffer_.size())
             return 0;
+        size_t r      = buffer_.size() - p;
         size_t remain = (s < r) ? s : r;
         memcpy(buffer, ptr(p), remain);
         return remain;
-- 
2.43.0


From 426c88291fa91a1748d4ab5db29dcd6b31f1f4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:13 +0000
Subject: [PATCH 15/16] fix: svdcmp left stale superdiagonal elements when
 splitting at a zero singular value, giving a wrong decomposition of
 rank-deficient matrices

---
 include/colorsystem.hpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index f1dc575..a536176 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7607,22 +7607,22 @@ namespace SOLVER
                     s = 1.0;
                     for (int i = l; i <= k; i++)
                     {
-                        f = s * rv1[i];
-                        if (fabs(f) + anorm != anorm)
+                        f      = s * rv1[i];
+                        rv1[i] = c * rv1[i];
+                        if (fabs(f) + anorm == anorm)
+                            break;
+                        g    = w[i];
+                        h    = PYTHAG(f, g);
+                        w[i] = h;
+                        h    = 1.0f / h;
+                        c    = g * h;
+                        s    = (-f * h);
+                        for (j = 0; j < m; j++)
                         {
-                            g    = w[i];
-                            h    = PYTHAG(f, g);
-                            w[i] = h;
-                            h    = 1.0f / h;
-                            c    = g * h;
-                            s    = (-f * h);
-                            for (j = 0; j < m; j++)
-                            {
-                                y        = a[j][nm];
-                                z        = a[j][i];
-                                a[j][nm] = (y * c + z * s);
-                                a[j][i]  = (z * c - y * s);
-                            }
+                            y        = a[j][nm];
+                            z        = a[j][i];
+                            a[j][nm] = (y * c + z * s);
+                            a[j][i]  = (z * c - y * s);
                         }
                     }
                 }
-- 
2.43.0


From 8c5a331de51df7b28333ff6d60bc428ae0b61bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:13 +0000
Subject: [PATCH 16/16] fix: svdcmp divided by denormal remainders of
 rank-deficient matrices, giving NaN

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index a536176..7604fbf 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7461,7 +7461,7 @@ namespace SOLVER
             {
                 for (k = i; k < m; k++)
                     scale += fabs(a[k][i]);
-                if (scale)
+                if (scale + anorm != anorm)
                 {
                     for (k = i; k < m; k++)
                     {
@@ -7495,7 +7495,7 @@ namespace SOLVER
             {
                 for (k = l; k < n; k++)
                     scale += fabs(a[i][k]);
-                if (scale)
+                if (scale + anorm != anorm)
                 {
                     for (k = l; k < n; k++)
                     {
-- 
2.43.0

