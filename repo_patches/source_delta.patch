From ba449f1abaf59ba8bf04783ac09572b1da991c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:22 +0000
Subject: [PATCH 01/28] fix: first derivatives of linear splines on uniform
 axes

On a uniform axis the generated code keeps the inverse of the node spacing,
but the linear blending formula divided by it, so d/dx came out multiplied by
the spacing squared. Both kinds of axes now keep the inverse spacing.
---
 interpolation/splines/codegen.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 963a7ad..20c51a9 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -92,8 +92,8 @@ def blending_formula(k=1, l=0, i=0):
 Φ_{i}_{1} = λ_{i}"""
         elif l == 1:
             s = f"""\
-d_Φ_{i}_{0} = -1.0/δ_{i}
-d_Φ_{i}_{1} = 1.0/δ_{i}"""
+d_Φ_{i}_{0} = -δ_{i}
+d_Φ_{i}_{1} = δ_{i}"""
         else:
             s = f"""
 d_{l}_Φ_{i}_{0} = 0.0
@@ -215,8 +215,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
     # dimension {{i}}: nonuniform grid
     i_{{i}} = int(np.searchsorted(gc_{{i}}, x_{{i}}))-1
     i_{{i}} = min(max(i_{{i}}, 0), N_{{i}}-2)
-    δ_{{i}} = (gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
-    λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/δ_{{i}}
+    δ_{{i}} = 1.0/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
+    λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
     {{endif}}
     
     {{endfor}}
@@ -353,8 +353,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         # dimension {{i}}: nonuniform grid
         i_{{i}} = int(np.searchsorted(gc_{{i}}, x_{{i}}))-1
         i_{{i}} = min(max(i_{{i}}, 0), N_{{i}}-2)
-        δ_{{i}} = (gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
-        λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/δ_{{i}}
+        δ_{{i}} = 1.0/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
+        λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
         {{endif}}
         {{endfor}}
 
-- 
2.43.0


From fab6df0f6ff4a29549755ff15320be4d3e27034b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:22 +0000
Subject: [PATCH 02/28] fix: evaluate at one point on nonuniform axes with
 nearest/constant extrapolation

The bounds of nonuniform axes were only defined in the vectorized template, so
evaluating at a single point failed to compile.
---
 interpolation/splines/codegen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 20c51a9..fdef8e9 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -179,6 +179,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
     # dim {{i}}: nonuniform
     gc_{{i}} = grid[{{i}}]
     N_{{i}} = gc_{{i}}.shape[0]
+    a_{{i}} = gc_{{i}}[0]
+    b_{{i}} = gc_{{i}}[N_{{i}}-1]
     {{endif}}
     {{endfor}}
 
-- 
2.43.0


From 4ea1e4acb6e93db5ed0266fbc164d9e2ac37c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:22 +0000
Subject: [PATCH 03/28] fix: constant extrapolation when evaluating at one
 point

In place evaluation of vector-valued splines outside of the grid went on and
overwrote the zeros with extrapolated values; evaluation of derivatives of
scalar splines returned a float instead of a tuple and failed to compile.
---
 interpolation/splines/codegen.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index fdef8e9..3668b63 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -196,6 +196,16 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         out[:] = 0.0
         {{if allocate}}
         return out
+        {{else}}
+        return
+        {{endif}}
+        {{elif orders is not None}}
+        {{if allocate}}
+        val = ({{"0.0,"*len(orders)}})
+        return val
+        {{else}}
+        out[:] = 0.0
+        return
         {{endif}}
         {{else}}
         val = 0.0
-- 
2.43.0


From ac23e69b23ef05ec98fbf7050e48d5fa9718c20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:34 +0000
Subject: [PATCH 04/28] fix: vec_multilinear_interpolation with a preallocated
 output

It used an undefined name.
---
 interpolation/splines/multilinear_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpolation/splines/multilinear_numba.py b/interpolation/splines/multilinear_numba.py
index 7ca7892..b5d2c52 100644
--- a/interpolation/splines/multilinear_numba.py
+++ b/interpolation/splines/multilinear_numba.py
@@ -12,7 +12,7 @@ def vec_multilinear_interpolation(smin, smax, orders, mvalues, s, out=None):
     if out is None:
         return eval_linear(grid, mvalues, s)
     else:
-        eval_linear(grid, values, s, out)
+        eval_linear(grid, mvalues, s, out)
 
 
 def multilinear_interpolation(smin, smax, orders, values, s, out=None):
-- 
2.43.0


From b6a12066a169975c851fcf7b23bfeaba49511713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:34 +0000
Subject: [PATCH 05/28] fix: grid attribute of one-dimensional LinearSpline and
 LinearSplines

np.linspace does not take an array as number of points.
---
 interpolation/splines/multilinear.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/interpolation/splines/multilinear.py b/interpolation/splines/multilinear.py
index eee3dff..76d96bf 100644
--- a/interpolation/splines/multilinear.py
+++ b/interpolation/splines/multilinear.py
@@ -6,9 +6,7 @@ import numpy as np
 
 def mlinspace(smin, smax, orders):
     if len(orders) == 1:
-        res = np.atleast_2d(
-            np.linspace(np.array(smin), np.array(smax), np.array(orders))
-        )
+        res = np.atleast_2d(np.linspace(smin[0], smax[0], orders[0]))
         return res.copy()  ## workaround for strange bug
     else:
         meshes = np.meshgrid(
-- 
2.43.0


From 194a59e79d8dcc78de1c63595f612c653061c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:34 +0000
Subject: [PATCH 06/28] fix: nodes of grids with nonuniform axes

The first three nodes of a nonuniform axis were taken for its bounds and number
of points.
---
 interpolation/splines/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/interpolation/splines/__init__.py b/interpolation/splines/__init__.py
index e23a570..035f5de 100644
--- a/interpolation/splines/__init__.py
+++ b/interpolation/splines/__init__.py
@@ -37,6 +37,11 @@ def CGrid(*args):
 
 
 def nodes(grid):
-    from interpolation.cartesian import mlinspace
-
-    return mlinspace([g[0] for g in grid], [g[1] for g in grid], [g[2] for g in grid])
+    from interpolation.cartesian import cartesian
+
+    return cartesian(
+        [
+            g if isinstance(g, np.ndarray) else np.linspace(g[0], g[1], g[2])
+            for g in grid
+        ]
+    )
-- 
2.43.0


From 9587ed964d15c59143f8f44469303ba038769fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:51 +0000
Subject: [PATCH 07/28] fix: gradient of cubic splines outside of the grid

Values are extrapolated linearly but the gradient was the one of the cubic
polynomial of the last cell. Use the slope at the boundary.
---
 interpolation/splines/eval_cubic_numba.py | 70 +++++++++++++----------
 1 file changed, 40 insertions(+), 30 deletions(-)

diff --git a/interpolation/splines/eval_cubic_numba.py b/interpolation/splines/eval_cubic_numba.py
index e6b201e..84c979e 100644
--- a/interpolation/splines/eval_cubic_numba.py
+++ b/interpolation/splines/eval_cubic_numba.py
@@ -5059,9 +5059,10 @@ def vec_eval_cubic_splines_G_1(a, b, orders, coefs, points, vals, dvals):
         i0 = int(floor(u0))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
-        tp0_0 = t0 * t0 * t0
-        tp0_1 = t0 * t0
-        tp0_2 = t0
+        s0 = max(min(t0, 1.0), 0.0)
+        tp0_0 = s0 * s0 * s0
+        tp0_1 = s0 * s0
+        tp0_2 = s0
         tp0_3 = 1.0
         Phi0_0 = 0
         Phi0_1 = 0
@@ -5174,13 +5175,15 @@ def vec_eval_cubic_splines_G_2(a, b, orders, coefs, points, vals, dvals):
         i1 = int(floor(u1))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
-        tp0_0 = t0 * t0 * t0
-        tp0_1 = t0 * t0
-        tp0_2 = t0
+        s0 = max(min(t0, 1.0), 0.0)
+        tp0_0 = s0 * s0 * s0
+        tp0_1 = s0 * s0
+        tp0_2 = s0
         tp0_3 = 1.0
-        tp1_0 = t1 * t1 * t1
-        tp1_1 = t1 * t1
-        tp1_2 = t1
+        s1 = max(min(t1, 1.0), 0.0)
+        tp1_0 = s1 * s1 * s1
+        tp1_1 = s1 * s1
+        tp1_2 = s1
         tp1_3 = 1.0
         Phi0_0 = 0
         Phi0_1 = 0
@@ -5450,17 +5453,20 @@ def vec_eval_cubic_splines_G_3(a, b, orders, coefs, points, vals, dvals):
         i2 = int(floor(u2))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
-        tp0_0 = t0 * t0 * t0
-        tp0_1 = t0 * t0
-        tp0_2 = t0
+        s0 = max(min(t0, 1.0), 0.0)
+        tp0_0 = s0 * s0 * s0
+        tp0_1 = s0 * s0
+        tp0_2 = s0
         tp0_3 = 1.0
-        tp1_0 = t1 * t1 * t1
-        tp1_1 = t1 * t1
-        tp1_2 = t1
+        s1 = max(min(t1, 1.0), 0.0)
+        tp1_0 = s1 * s1 * s1
+        tp1_1 = s1 * s1
+        tp1_2 = s1
         tp1_3 = 1.0
-        tp2_0 = t2 * t2 * t2
-        tp2_1 = t2 * t2
-        tp2_2 = t2
+        s2 = max(min(t2, 1.0), 0.0)
+        tp2_0 = s2 * s2 * s2
+        tp2_1 = s2 * s2
+        tp2_2 = s2
         tp2_3 = 1.0
         Phi0_0 = 0
         Phi0_1 = 0
@@ -6223,21 +6229,25 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
         i3 = int(floor(u3))
         i3 = max(min(i3, M3 - 2), 0)
         t3 = u3 - i3
-        tp0_0 = t0 * t0 * t0
-        tp0_1 = t0 * t0
-        tp0_2 = t0
+        s0 = max(min(t0, 1.0), 0.0)
+        tp0_0 = s0 * s0 * s0
+        tp0_1 = s0 * s0
+        tp0_2 = s0
         tp0_3 = 1.0
-        tp1_0 = t1 * t1 * t1
-        tp1_1 = t1 * t1
-        tp1_2 = t1
+        s1 = max(min(t1, 1.0), 0.0)
+        tp1_0 = s1 * s1 * s1
+        tp1_1 = s1 * s1
+        tp1_2 = s1
         tp1_3 = 1.0
-        tp2_0 = t2 * t2 * t2
-        tp2_1 = t2 * t2
-        tp2_2 = t2
+        s2 = max(min(t2, 1.0), 0.0)
+        tp2_0 = s2 * s2 * s2
+        tp2_1 = s2 * s2
+        tp2_2 = s2
         tp2_3 = 1.0
-        tp3_0 = t3 * t3 * t3
-        tp3_1 = t3 * t3
-        tp3_2 = t3
+        s3 = max(min(t3, 1.0), 0.0)
+        tp3_0 = s3 * s3 * s3
+        tp3_1 = s3 * s3
+        tp3_2 = s3
         tp3_3 = 1.0
         Phi0_0 = 0
         Phi0_1 = 0
-- 
2.43.0


From eec0f147fa7236b8b7212e8ab69eaa038c2b57f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:51 +0000
Subject: [PATCH 08/28] fix: extrapolation very far outside of a uniform grid

The cell number was converted to an integer before being clamped, so that far
enough on the right of the grid the conversion overflowed and the first cell was
extrapolated instead of the last one.
---
 interpolation/multilinear/fungen.py       |   2 +-
 interpolation/splines/codegen.py          |   4 +-
 interpolation/splines/eval_cubic_numba.py | 100 +++++++++++-----------
 3 files changed, 53 insertions(+), 53 deletions(-)

diff --git a/interpolation/multilinear/fungen.py b/interpolation/multilinear/fungen.py
index a7a9ec1..3f8327b 100644
--- a/interpolation/multilinear/fungen.py
+++ b/interpolation/multilinear/fungen.py
@@ -37,7 +37,7 @@ def ol_get_index(gc, x):
             δ = (gc[1] - gc[0]) / (gc[2] - 1)
             d = x - gc[0]
             ii = d // δ
-            i = int(ii)
+            i = int(clamp(ii, 0.0, gc[2] - 1.0))
             i = clamp(i, 0, gc[2] - 2)
             r = d - i * δ
             λ = r / δ
diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 3668b63..a029a3e 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -220,7 +220,7 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
     {{if (not grid_types) or (grid_types[i]=='uniform')}}
     # dimension {{i}}: uniform grid
     u_{{i}} = (x_{{i}} - a_{{i}})*δ_{{i}}
-    i_{{i}} = int( floor( u_{{i}} ) )
+    i_{{i}} = int( floor( max( min(u_{{i}},n_{{i}}-1.0), 0.0 ) ) )
     i_{{i}} = max( min(i_{{i}},n_{{i}}-2), 0 )
     λ_{{i}} = u_{{i}}-i_{{i}}
     {{elif grid_types[i]=='nonuniform'}}
@@ -358,7 +358,7 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         {{if (not grid_types) or (grid_types[i]=='uniform')}}
         # dimension {{i}}: uniform grid
         u_{{i}} = (x_{{i}} - a_{{i}})*δ_{{i}}
-        i_{{i}} = int( floor( u_{{i}} ) )
+        i_{{i}} = int( floor( max( min(u_{{i}},n_{{i}}-1.0), 0.0 ) ) )
         i_{{i}} = max( min(i_{{i}},n_{{i}}-2), 0 )
         λ_{{i}} = u_{{i}}-i_{{i}}
         {{elif grid_types[i]=='nonuniform'}}
diff --git a/interpolation/splines/eval_cubic_numba.py b/interpolation/splines/eval_cubic_numba.py
index 84c979e..d86fe02 100644
--- a/interpolation/splines/eval_cubic_numba.py
+++ b/interpolation/splines/eval_cubic_numba.py
@@ -83,7 +83,7 @@ def eval_cubic_spline_1(a, b, orders, coefs, point):
     dinv0 = (orders[0] - 1.0) / (b[0] - a[0])
     x0 = point[0]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     tp0_0 = t0 * t0 * t0
@@ -146,11 +146,11 @@ def eval_cubic_spline_2(a, b, orders, coefs, point):
     x0 = point[0]
     x1 = point[1]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     u1 = (x1 - start1) * dinv1
-    i1 = int(floor(u1))
+    i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
     i1 = max(min(i1, M1 - 2), 0)
     t1 = u1 - i1
     tp0_0 = t0 * t0 * t0
@@ -281,15 +281,15 @@ def eval_cubic_spline_3(a, b, orders, coefs, point):
     x1 = point[1]
     x2 = point[2]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     u1 = (x1 - start1) * dinv1
-    i1 = int(floor(u1))
+    i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
     i1 = max(min(i1, M1 - 2), 0)
     t1 = u1 - i1
     u2 = (x2 - start2) * dinv2
-    i2 = int(floor(u2))
+    i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
     i2 = max(min(i2, M2 - 2), 0)
     t2 = u2 - i2
     tp0_0 = t0 * t0 * t0
@@ -560,19 +560,19 @@ def eval_cubic_spline_4(a, b, orders, coefs, point):
     x2 = point[2]
     x3 = point[3]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     u1 = (x1 - start1) * dinv1
-    i1 = int(floor(u1))
+    i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
     i1 = max(min(i1, M1 - 2), 0)
     t1 = u1 - i1
     u2 = (x2 - start2) * dinv2
-    i2 = int(floor(u2))
+    i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
     i2 = max(min(i2, M2 - 2), 0)
     t2 = u2 - i2
     u3 = (x3 - start3) * dinv3
-    i3 = int(floor(u3))
+    i3 = int(floor(max(min(u3, M3 - 1.0), 0.0)))
     i3 = max(min(i3, M3 - 2), 0)
     t3 = u3 - i3
     tp0_0 = t0 * t0 * t0
@@ -1259,7 +1259,7 @@ def vec_eval_cubic_spline_1(a, b, orders, coefs, points, out):
         start0 = a[0]
         dinv0 = (orders[0] - 1.0) / (b[0] - a[0])
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         tp0_0 = t0 * t0 * t0
@@ -1337,11 +1337,11 @@ def vec_eval_cubic_spline_2(a, b, orders, coefs, points, out):
         start1 = a[1]
         dinv1 = (orders[1] - 1.0) / (b[1] - a[1])
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         tp0_0 = t0 * t0 * t0
@@ -1499,15 +1499,15 @@ def vec_eval_cubic_spline_3(a, b, orders, coefs, points, out):
         start2 = a[2]
         dinv2 = (orders[2] - 1.0) / (b[2] - a[2])
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         u2 = (x2 - start2) * dinv2
-        i2 = int(floor(u2))
+        i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
         tp0_0 = t0 * t0 * t0
@@ -1817,19 +1817,19 @@ def vec_eval_cubic_spline_4(a, b, orders, coefs, points, out):
         start3 = a[3]
         dinv3 = (orders[3] - 1.0) / (b[3] - a[3])
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         u2 = (x2 - start2) * dinv2
-        i2 = int(floor(u2))
+        i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
         u3 = (x3 - start3) * dinv3
-        i3 = int(floor(u3))
+        i3 = int(floor(max(min(u3, M3 - 1.0), 0.0)))
         i3 = max(min(i3, M3 - 2), 0)
         t3 = u3 - i3
         tp0_0 = t0 * t0 * t0
@@ -2561,7 +2561,7 @@ def eval_cubic_splines_1(a, b, orders, coefs, point, vals):
     dinv0 = (orders[0] - 1.0) / (b[0] - a[0])
     x0 = point[0]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     tp0_0 = t0 * t0 * t0
@@ -2626,11 +2626,11 @@ def eval_cubic_splines_2(a, b, orders, coefs, point, vals):
     x0 = point[0]
     x1 = point[1]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     u1 = (x1 - start1) * dinv1
-    i1 = int(floor(u1))
+    i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
     i1 = max(min(i1, M1 - 2), 0)
     t1 = u1 - i1
     tp0_0 = t0 * t0 * t0
@@ -2763,15 +2763,15 @@ def eval_cubic_splines_3(a, b, orders, coefs, point, vals):
     x1 = point[1]
     x2 = point[2]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     u1 = (x1 - start1) * dinv1
-    i1 = int(floor(u1))
+    i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
     i1 = max(min(i1, M1 - 2), 0)
     t1 = u1 - i1
     u2 = (x2 - start2) * dinv2
-    i2 = int(floor(u2))
+    i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
     i2 = max(min(i2, M2 - 2), 0)
     t2 = u2 - i2
     tp0_0 = t0 * t0 * t0
@@ -3044,19 +3044,19 @@ def eval_cubic_splines_4(a, b, orders, coefs, point, vals):
     x2 = point[2]
     x3 = point[3]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     u1 = (x1 - start1) * dinv1
-    i1 = int(floor(u1))
+    i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
     i1 = max(min(i1, M1 - 2), 0)
     t1 = u1 - i1
     u2 = (x2 - start2) * dinv2
-    i2 = int(floor(u2))
+    i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
     i2 = max(min(i2, M2 - 2), 0)
     t2 = u2 - i2
     u3 = (x3 - start3) * dinv3
-    i3 = int(floor(u3))
+    i3 = int(floor(max(min(u3, M3 - 1.0), 0.0)))
     i3 = max(min(i3, M3 - 2), 0)
     t3 = u3 - i3
     tp0_0 = t0 * t0 * t0
@@ -3744,7 +3744,7 @@ def vec_eval_cubic_splines_1(a, b, orders, coefs, points, vals):
     for n in range(N):
         x0 = points[n, 0]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         tp0_0 = t0 * t0 * t0
@@ -3824,11 +3824,11 @@ def vec_eval_cubic_splines_2(a, b, orders, coefs, points, vals):
         x0 = points[n, 0]
         x1 = points[n, 1]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         tp0_0 = t0 * t0 * t0
@@ -3988,15 +3988,15 @@ def vec_eval_cubic_splines_3(a, b, orders, coefs, points, vals):
         x1 = points[n, 1]
         x2 = points[n, 2]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         u2 = (x2 - start2) * dinv2
-        i2 = int(floor(u2))
+        i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
         tp0_0 = t0 * t0 * t0
@@ -4308,19 +4308,19 @@ def vec_eval_cubic_splines_4(a, b, orders, coefs, points, vals):
         x2 = points[n, 2]
         x3 = points[n, 3]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         u2 = (x2 - start2) * dinv2
-        i2 = int(floor(u2))
+        i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
         u3 = (x3 - start3) * dinv3
-        i3 = int(floor(u3))
+        i3 = int(floor(max(min(u3, M3 - 1.0), 0.0)))
         i3 = max(min(i3, M3 - 2), 0)
         t3 = u3 - i3
         tp0_0 = t0 * t0 * t0
@@ -5056,7 +5056,7 @@ def vec_eval_cubic_splines_G_1(a, b, orders, coefs, points, vals, dvals):
     for n in range(N):
         x0 = points[n, 0]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         s0 = max(min(t0, 1.0), 0.0)
@@ -5168,11 +5168,11 @@ def vec_eval_cubic_splines_G_2(a, b, orders, coefs, points, vals, dvals):
         x0 = points[n, 0]
         x1 = points[n, 1]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         s0 = max(min(t0, 1.0), 0.0)
@@ -5442,15 +5442,15 @@ def vec_eval_cubic_splines_G_3(a, b, orders, coefs, points, vals, dvals):
         x1 = points[n, 1]
         x2 = points[n, 2]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         u2 = (x2 - start2) * dinv2
-        i2 = int(floor(u2))
+        i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
         s0 = max(min(t0, 1.0), 0.0)
@@ -6214,19 +6214,19 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
         x2 = points[n, 2]
         x3 = points[n, 3]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 1.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 1.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         u2 = (x2 - start2) * dinv2
-        i2 = int(floor(u2))
+        i2 = int(floor(max(min(u2, M2 - 1.0), 0.0)))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
         u3 = (x3 - start3) * dinv3
-        i3 = int(floor(u3))
+        i3 = int(floor(max(min(u3, M3 - 1.0), 0.0)))
         i3 = max(min(i3, M3 - 2), 0)
         t3 = u3 - i3
         s0 = max(min(t0, 1.0), 0.0)
-- 
2.43.0


From 763ac69650e11b6599c9d57af660b4418c36ca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:16 +0000
Subject: [PATCH 09/28] fix: filter_cubic and eval_cubic replaced by modules
 after using spline objects

---
 interpolation/splines/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interpolation/splines/__init__.py b/interpolation/splines/__init__.py
index 035f5de..24ec034 100644
--- a/interpolation/splines/__init__.py
+++ b/interpolation/splines/__init__.py
@@ -1,3 +1,6 @@
+# load the submodules which share their name with a function before the functions
+# are bound: a later (lazy) import would replace the function by the module
+from . import eval_cubic, filter_cubic
 from .splines import CubicSpline, CubicSplines
 from .multilinear import LinearSpline, LinearSplines
 from .eval_splines import options, eval_linear, eval_cubic, eval_spline
-- 
2.43.0


From 131d110a82019a5cba159eb3be3c3b64ed0c8174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:18 +0000
Subject: [PATCH 10/28] fix: permute on lists of fewer than two elements

---
 interpolation/smolyak/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interpolation/smolyak/util.py b/interpolation/smolyak/util.py
index 704ab45..d574309 100644
--- a/interpolation/smolyak/util.py
+++ b/interpolation/smolyak/util.py
@@ -15,6 +15,9 @@ def permute(a):
     ## Output the first input sorted.
     yield list(a)
 
+    if len(a) < 2:  # nothing to reorder
+        return
+
     i = 0
     first = 0
     alen = len(a)
-- 
2.43.0


From c650c753c824c1b172d302136862507dab23b065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:18 +0000
Subject: [PATCH 11/28] fix: cheby2n of degree zero

---
 interpolation/smolyak/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interpolation/smolyak/grid.py b/interpolation/smolyak/grid.py
index f161239..8bc21f7 100644
--- a/interpolation/smolyak/grid.py
+++ b/interpolation/smolyak/grid.py
@@ -194,7 +194,8 @@ def cheby2n(x, n, kind=1.0):
     dim = x.shape
     results = np.zeros((n + 1,) + dim)
     results[0, ...] = np.ones(dim)
-    results[1, ...] = x * kind
+    if n >= 1:
+        results[1, ...] = x * kind
     for i in range(2, n + 1):
         results[i, ...] = 2 * x * results[i - 1, ...] - results[i - 2, ...]
     return results
-- 
2.43.0


From b856367a82b994d96940b1dd3ad7f63dda62eccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:18 +0000
Subject: [PATCH 12/28] fix: gradient of vector-valued Smolyak interpolants

---
 interpolation/smolyak/interp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interpolation/smolyak/interp.py b/interpolation/smolyak/interp.py
index 0cc1df1..659666d 100644
--- a/interpolation/smolyak/interp.py
+++ b/interpolation/smolyak/interp.py
@@ -108,7 +108,8 @@ class SmolyakInterp(object):
                 rets.append(vals)
 
             radii = 2 / (sg.ub - sg.lb)
-            rets.append(d_vals * radii[None, :])
+            # one factor per dimension (second axis), whatever follows it
+            rets.append(d_vals * radii.reshape((1, d) + (1,) * (d_vals.ndim - 2)))
 
         elif not deriv and interp:  # No derivs in build_B. Just do vals
             new_B = build_B(d, sg.mu, trans_points, sg.pinds)
-- 
2.43.0


From e7375ab30f5c495311a374abe09dae73a882c893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:18 +0000
Subject: [PATCH 13/28] fix: Hermite interpolation at nan reads past the end of
 the grid

---
 interpolation/splines/hermite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interpolation/splines/hermite.py b/interpolation/splines/hermite.py
index aadfab5..616839e 100644
--- a/interpolation/splines/hermite.py
+++ b/interpolation/splines/hermite.py
@@ -59,7 +59,8 @@ def HermiteInterpolation(x0: float, x, y, yp):
         return y[-1]
 
     ###### Interpolation case ######
-    indx = np.searchsorted(x, x0)
+    # nan is sorted after the last element
+    indx = min(np.searchsorted(x, x0), len(x) - 1)
     xk, xkn = x[indx - 1], x[indx]
     pk, pkn = y[indx - 1], y[indx]
     mk, mkn = yp[indx - 1], yp[indx]
-- 
2.43.0


From fb92158699c795678513c531b75da84daeaa0b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:32 +0000
Subject: [PATCH 14/28] fix: natural boundary rows of the cubic filter do not
 depend on the step

Their common factor (the square of the step) under- or overflowed on axes
narrower than about 1e-154 or wider than about 1e154, giving NaN coefficients
or ZeroDivisionError.
---
 interpolation/splines/filter_cubic.py    | 12 ++++++------
 interpolation/splines/prefilter_cubic.py |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/interpolation/splines/filter_cubic.py b/interpolation/splines/filter_cubic.py
index d523d58..2e10df8 100644
--- a/interpolation/splines/filter_cubic.py
+++ b/interpolation/splines/filter_cubic.py
@@ -62,15 +62,15 @@ def find_coefs_1d(delta_inv, M, data, coefs):
     abcd_right = np.zeros(4)
 
     # Left boundary
-    abcd_left[0] = 1.0 * delta_inv * delta_inv
-    abcd_left[1] = -2.0 * delta_inv * delta_inv
-    abcd_left[2] = 1.0 * delta_inv * delta_inv
+    abcd_left[0] = 1.0
+    abcd_left[1] = -2.0
+    abcd_left[2] = 1.0
     abcd_left[3] = 0
 
     # Right boundary
-    abcd_right[0] = 1.0 * delta_inv * delta_inv
-    abcd_right[1] = -2.0 * delta_inv * delta_inv
-    abcd_right[2] = 1.0 * delta_inv * delta_inv
+    abcd_right[0] = 1.0
+    abcd_right[1] = -2.0
+    abcd_right[2] = 1.0
     abcd_right[3] = 0
 
     for i in range(4):
diff --git a/interpolation/splines/prefilter_cubic.py b/interpolation/splines/prefilter_cubic.py
index 0a033b1..65b2c3c 100644
--- a/interpolation/splines/prefilter_cubic.py
+++ b/interpolation/splines/prefilter_cubic.py
@@ -68,10 +68,10 @@ def find_coefs_1d(δ, data, coefs, bands):
     # Setup boundary conditions
 
     # Left boundary
-    abcd_left = (1.0 * δ * δ, -2.0 * δ * δ, 1.0 * δ * δ, 0.0)
+    abcd_left = (1.0, -2.0, 1.0, 0.0)
 
     # Right boundary
-    abcd_right = (1.0 * δ * δ, -2.0 * δ * δ, 1.0 * δ * δ, 0.0)
+    abcd_right = (1.0, -2.0, 1.0, 0.0)
 
     for i in range(4):
         bands[0, i] = abcd_left[i]
-- 
2.43.0


From 5d0f4bba728ed35fc7f8585e54226c593fce6e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:32 +0000
Subject: [PATCH 15/28] fix: options of eval_spline can be left out

Leaving out k, diff or extrap_mode raised LiteralTypingError, although they
have (documented) default values.
---
 interpolation/splines/eval_splines.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/interpolation/splines/eval_splines.py b/interpolation/splines/eval_splines.py
index 7e944a2..3ef3b98 100644
--- a/interpolation/splines/eval_splines.py
+++ b/interpolation/splines/eval_splines.py
@@ -95,11 +95,20 @@ def _eval_spline():
     pass
 
 
+def _option_value(option, position):
+    # value of an option known at compile time: default or literal
+    if isinstance(option, numba.types.Omitted):
+        return option.value
+    if not isinstance(option, numba.types.Literal):
+        raise numba.errors.ForceLiteralArg({position}, lambda args, kws: args)
+    return option.literal_value
+
+
 @overload(_eval_spline, prefer_literal=True)
 def __eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode="linear"):
-    kk = (k).literal_value
-    diffs = (diff).literal_value
-    extrap_ = (extrap_mode).literal_value
+    kk = _option_value(k, 4)
+    diffs = _option_value(diff, 5)
+    extrap_ = _option_value(extrap_mode, 6)
     d = len(grid)
 
     vectorized = points in t_array_2d
@@ -141,10 +150,7 @@ def __eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode="line
 @njit
 def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode="linear"):
     """Do I get a docstring ?"""
-    dd = numba.literally(diff)
-    k = numba.literally(k)
-    extrap_ = numba.literally(extrap_mode)
-    return _eval_spline(grid, C, points, out=out, k=k, diff=dd, extrap_mode=extrap_)
+    return _eval_spline(grid, C, points, out, k, diff, extrap_mode)
 
 
 ###
-- 
2.43.0


From 2749a8c256fd1f9cb88e99812eadddef9d36d9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:43 +0000
Subject: [PATCH 16/28] fix: template functions and template inheritance

---
 interpolation/tempita/__init__.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/interpolation/tempita/__init__.py b/interpolation/tempita/__init__.py
index fb86dae..725ffab 100644
--- a/interpolation/tempita/__init__.py
+++ b/interpolation/tempita/__init__.py
@@ -35,7 +35,7 @@ import cgi
 from urllib.parse import quote as url_quote
 import os
 import tokenize
-from io import BytesIO as StringIO
+from io import StringIO
 
 # from cStringIO import StringIO
 
@@ -233,7 +233,7 @@ class Template(object):
             )
         templ = self.get_template(inherit_template, self)
         self_ = TemplateObject(self.name)
-        for name, value in defs.iteritems():
+        for name, value in defs.items():
             setattr(self_, name, value)
         self_.body = body
         ns = ns.copy()
@@ -584,11 +584,11 @@ class TemplateDef(object):
         values = {}
         sig_args, var_args, var_kw, defaults = self._func_signature
         extra_kw = {}
-        for name, value in kw.iteritems():
+        for name, value in kw.items():
             if not var_kw and name not in sig_args:
                 raise TypeError("Unexpected argument %s" % name)
             if name in sig_args:
-                values[sig_args] = value
+                values[name] = value
             else:
                 extra_kw[name] = value
         args = list(args)
@@ -606,7 +606,7 @@ class TemplateDef(object):
                 raise TypeError(
                     "Extra position arguments: %s" % ", ".join(repr(v) for v in args)
                 )
-        for name, value_expr in defaults.iteritems():
+        for name, value_expr in defaults.items():
             if name not in values:
                 values[name] = self._template._eval(value_expr, self._ns, self._pos)
         for name in sig_args:
@@ -1175,7 +1175,9 @@ def parse_signature(sig_text, name, pos):
 
     def get_token(pos=False):
         try:
-            tok_type, tok_string, (srow, scol), (erow, ecol), line = next(tokens)
+            tok_type = tokenize.NEWLINE
+            while tok_type in (tokenize.NEWLINE, tokenize.NL):
+                tok_type, tok_string, (srow, scol), (erow, ecol), line = next(tokens)
         except StopIteration:
             return tokenize.ENDMARKER, ""
         if pos:
@@ -1223,7 +1225,7 @@ def parse_signature(sig_text, name, pos):
                 tok_type, tok_string, s, e = get_token(True)
                 if start_pos is None:
                     start_pos = s
-                end_pos = e
+                end_pos = s
                 if tok_type == tokenize.ENDMARKER and nest_count:
                     raise TemplateError(
                         "Invalid signature: (%s)" % sig_text, position=pos, name=name
-- 
2.43.0


From 61c0d40a53acdd05d5c6004f00eb844637589868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:43 +0000
Subject: [PATCH 17/28] fix: delimeters argument of templates

---
 interpolation/tempita/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpolation/tempita/__init__.py b/interpolation/tempita/__init__.py
index 725ffab..4f9304c 100644
--- a/interpolation/tempita/__init__.py
+++ b/interpolation/tempita/__init__.py
@@ -119,7 +119,7 @@ class Template(object):
             )
         else:
             assert len(delimeters) == 2 and all(
-                [isinstance(delimeter, basestring) for delimeter in delimeters]
+                [isinstance(delimeter, basestring_) for delimeter in delimeters]
             )
             self.default_namespace = self.__class__.default_namespace.copy()
             self.default_namespace["start_braces"] = delimeters[0]
-- 
2.43.0


From 811b7c196de7066076e35ea2d4ceb67b065053aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:43 +0000
Subject: [PATCH 18/28] fix: quoting in HTML templates

---
 interpolation/tempita/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interpolation/tempita/__init__.py b/interpolation/tempita/__init__.py
index 4f9304c..ab8fcf9 100644
--- a/interpolation/tempita/__init__.py
+++ b/interpolation/tempita/__init__.py
@@ -31,7 +31,7 @@ If there are syntax errors ``TemplateError`` will be raised.
 
 import re
 import sys
-import cgi
+from html import escape as html_escape
 from urllib.parse import quote as url_quote
 import os
 import tokenize
@@ -480,10 +480,10 @@ def html_quote(value, force=True):
     if not isinstance(value, basestring_):
         value = coerce_text(value)
     if sys.version >= "3" and isinstance(value, bytes):
-        value = cgi.escape(value.decode("latin1"), 1)
+        value = html_escape(value.decode("latin1"))
         value = value.encode("latin1")
     else:
-        value = cgi.escape(value, 1)
+        value = html_escape(value)
     if sys.version < "3":
         if is_unicode(value):
             value = value.encode("ascii", "xmlcharrefreplace")
-- 
2.43.0


From 75c07a91d057c04ac8167e1a13a5542647e65f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:43 +0000
Subject: [PATCH 19/28] fix: bunch and attr of the template language

---
 interpolation/tempita/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interpolation/tempita/__init__.py b/interpolation/tempita/__init__.py
index ab8fcf9..fae5f15 100644
--- a/interpolation/tempita/__init__.py
+++ b/interpolation/tempita/__init__.py
@@ -423,7 +423,7 @@ def paste_script_template_renderer(content, vars, filename=None):
 
 class bunch(dict):
     def __init__(self, **kw):
-        for name, value in kw.iteritems():
+        for name, value in kw.items():
             setattr(self, name, value)
 
     def __setattr__(self, name, value):
@@ -445,7 +445,7 @@ class bunch(dict):
             return dict.__getitem__(self, key)
 
     def __repr__(self):
-        items = [(k, v) for k, v in self.iteritems()]
+        items = [(k, v) for k, v in self.items()]
         items.sort()
         return "<%s %s>" % (
             self.__class__.__name__,
@@ -498,7 +498,7 @@ def url(v):
 
 
 def attr(**kw):
-    kw = list(kw.iteritems())
+    kw = list(kw.items())
     kw.sort()
     parts = []
     for name, value in kw:
-- 
2.43.0


From cf399cc68b9b749cb001989c6edc308cd68cf4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:43 +0000
Subject: [PATCH 20/28] fix: templates from files without an encoding

---
 interpolation/tempita/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/interpolation/tempita/__init__.py b/interpolation/tempita/__init__.py
index fae5f15..c46eb4a 100644
--- a/interpolation/tempita/__init__.py
+++ b/interpolation/tempita/__init__.py
@@ -167,8 +167,7 @@ class Template(object):
         f = open(filename, "rb")
         c = f.read()
         f.close()
-        if encoding:
-            c = c.decode(encoding)
+        c = c.decode(encoding or cls.default_encoding)
         return cls(
             content=c,
             name=filename,
-- 
2.43.0


From 2a420606fffc55830bf4bf9fc9227afb52692fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:06 +0000
Subject: [PATCH 21/28] fix: template functions called without extra positional
 arguments

---
 interpolation/tempita/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpolation/tempita/__init__.py b/interpolation/tempita/__init__.py
index c46eb4a..d28ebd0 100644
--- a/interpolation/tempita/__init__.py
+++ b/interpolation/tempita/__init__.py
@@ -590,6 +590,8 @@ class TemplateDef(object):
                 values[name] = value
             else:
                 extra_kw[name] = value
+        if var_args:
+            values[var_args] = ()
         args = list(args)
         sig_args = list(sig_args)
         while args:
-- 
2.43.0


From ac0dc49e0996b74d0f2c055b1be1bb1b26b9b646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 22/28] fix: eval_spline rejects unknown extrapolation modes

Any other string was silently taken for 'linear'.
---
 interpolation/splines/codegen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index a029a3e..2d0dcfc 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -449,6 +449,9 @@ def get_code_spline(
     if set(grid_types) != set(["uniform"]) and k > 1:
         raise Exception("Nonuniform grids are only supported for linear splines.")
 
+    if extrap_mode not in (None, "constant", "nearest", "linear"):
+        raise Exception(f"Unknown extrapolation mode '{extrap_mode}'.")
+
     templ = tempita.Template(eval_template)
     templ_vec = tempita.Template(eval_template_vectorized)
     if vectorized:
-- 
2.43.0


From a3cda3d4c9b4b08b015eabc3d2a6e287bae02da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:54 +0000
Subject: [PATCH 23/28] fix: linear spline objects reject points of another
 dimension

They read beyond the points given, where cubic objects raise.
---
 interpolation/splines/multilinear.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/interpolation/splines/multilinear.py b/interpolation/splines/multilinear.py
index 76d96bf..390ffe4 100644
--- a/interpolation/splines/multilinear.py
+++ b/interpolation/splines/multilinear.py
@@ -83,6 +83,12 @@ class LinearSpline:
         from .eval_splines import eval_linear
 
         s = numpy.ascontiguousarray(s, dtype=self.dtype)
+        if s.shape[-1] != self.d:
+            raise Exception(
+                "Last dimension should be {}. Received : {}.".format(
+                    self.d, s.shape[-1]
+                )
+            )
         grid = tuple(
             (self.smin[i], self.smax[i], self.orders[i]) for i in range(len(self.smin))
         )
@@ -168,6 +174,12 @@ class LinearSplines:
             (self.smin[i], self.smax[i], self.orders[i]) for i in range(len(self.smin))
         )
         s = numpy.ascontiguousarray(s, dtype=self.dtype)
+        if s.shape[-1] != self.d:
+            raise Exception(
+                "Last dimension should be {}. Received : {}.".format(
+                    self.d, s.shape[-1]
+                )
+            )
         a = eval_linear(grid, self.mvalues, s)
         return a
 
-- 
2.43.0


From 0f116ebc0fca0003e3baaf61337c2cd56c8fe5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:38 +0000
Subject: [PATCH 24/28] fix: eval_linear and eval_cubic reject options that are
 neither an output nor a mode

eval_linear(grid, C, point, 'nearest') took the string for an output and
extrapolated linearly.
---
 interpolation/splines/eval_splines.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interpolation/splines/eval_splines.py b/interpolation/splines/eval_splines.py
index 3ef3b98..39cc5eb 100644
--- a/interpolation/splines/eval_splines.py
+++ b/interpolation/splines/eval_splines.py
@@ -210,6 +210,8 @@ def __eval_linear(grid, C, points, out, extrap_mode):
 
 @overload(_eval_linear, **overload_options)
 def __eval_linear(grid, C, points, out):
+    if not isinstance(out, (Array, none)):
+        return None
     return lambda grid, C, points, out: eval_spline(
         grid, C, points, out=out, k=1, diff="None", extrap_mode="linear"
     )
@@ -287,6 +289,8 @@ from numba import literally
 
 @overload(_eval_cubic, **overload_options)
 def __eval_cubic(grid, C, points, out):
+    if not isinstance(out, (Array, none)):
+        return None
     return lambda grid, C, points, out: eval_spline(
         grid,
         C,
-- 
2.43.0


From e9084ec0cbe5942dcbfd467f1fcdd90fe12dae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:08 +0000
Subject: [PATCH 25/28] fix: chebyvalto raised for one and two polynomials

---
 interpolation/smolyak/grid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interpolation/smolyak/grid.py b/interpolation/smolyak/grid.py
index 8bc21f7..bb10558 100644
--- a/interpolation/smolyak/grid.py
+++ b/interpolation/smolyak/grid.py
@@ -149,8 +149,10 @@ def chebyvalto(x, n, kind=1.0):
     ret_matrix = np.zeros((row, col * (n - 1)))
 
     init = np.ones((row, col))
-    ret_matrix[:, :col] = x * kind
-    ret_matrix[:, col : 2 * col] = 2 * x * ret_matrix[:, :col] - init
+    if n > 1:
+        ret_matrix[:, :col] = x * kind
+    if n > 2:
+        ret_matrix[:, col : 2 * col] = 2 * x * ret_matrix[:, :col] - init
 
     for i in range(3, n):
         ret_matrix[:, col * (i - 1) : col * (i)] = (
-- 
2.43.0


From 99b4eb945dacd714b869934ef419764897cfa932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:49 +0000
Subject: [PATCH 26/28] fix: bounds of a Smolyak grid given as tuples or numpy
 integers were dropped

---
 interpolation/smolyak/grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interpolation/smolyak/grid.py b/interpolation/smolyak/grid.py
index bb10558..6dd1f92 100644
--- a/interpolation/smolyak/grid.py
+++ b/interpolation/smolyak/grid.py
@@ -727,9 +727,9 @@ class SmolyakGrid(object):
 
         if lb is None:  # default is [-1, 1]^d
             self.lb = -1 * np.ones(d)
-        elif isinstance(lb, int) or isinstance(lb, float):  # scalar. copy it
+        elif np.isscalar(lb):  # copy it
             self.lb = np.ones(d) * lb
-        elif isinstance(lb, list) or isinstance(lb, np.ndarray):
+        else:
             lb = np.asarray(lb)
             if lb.size == d:
                 self.lb = lb
@@ -740,9 +740,9 @@ class SmolyakGrid(object):
 
         if ub is None:  # default is [-1, 1]^d
             self.ub = 1 * np.ones(d)
-        elif isinstance(ub, int) or isinstance(ub, float):  # scalar. copy it
+        elif np.isscalar(ub):  # copy it
             self.ub = np.ones(d) * ub
-        elif isinstance(ub, list) or isinstance(ub, np.ndarray):
+        else:
             ub = np.asarray(ub)
             if ub.size == d:
                 self.ub = ub
-- 
2.43.0


From 0d3b8d214301be027ecbdc595e048f04b239bb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:49 +0000
Subject: [PATCH 27/28] fix: levels of a Smolyak grid given as numpy integers
 raised TypeError

---
 interpolation/smolyak/grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interpolation/smolyak/grid.py b/interpolation/smolyak/grid.py
index 6dd1f92..7aff1f2 100644
--- a/interpolation/smolyak/grid.py
+++ b/interpolation/smolyak/grid.py
@@ -754,6 +754,9 @@ class SmolyakGrid(object):
         if d <= 1:
             raise ValueError("Number of dimensions must be >= 2")
 
+        if isinstance(mu, np.integer):
+            mu = int(mu)
+
         if isinstance(mu, int):  # Isotropic case
             if mu < 1:
                 raise ValueError("The parameter mu needs to be > 1.")
-- 
2.43.0


From 78866a18e830411ae569f7ec9dacca33b48159fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:29 +0000
Subject: [PATCH 28/28] fix: bounds of a Smolyak grid given as small integers
 overflowed

---
 interpolation/smolyak/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interpolation/smolyak/grid.py b/interpolation/smolyak/grid.py
index 7aff1f2..01b9548 100644
--- a/interpolation/smolyak/grid.py
+++ b/interpolation/smolyak/grid.py
@@ -730,7 +730,7 @@ class SmolyakGrid(object):
         elif np.isscalar(lb):  # copy it
             self.lb = np.ones(d) * lb
         else:
-            lb = np.asarray(lb)
+            lb = np.asarray(lb, dtype=float)
             if lb.size == d:
                 self.lb = lb
             else:
@@ -743,7 +743,7 @@ class SmolyakGrid(object):
         elif np.isscalar(ub):  # copy it
             self.ub = np.ones(d) * ub
         else:
-            ub = np.asarray(ub)
+            ub = np.asarray(ub, dtype=float)
             if ub.size == d:
                 self.ub = ub
             else:
-- 
2.43.0

