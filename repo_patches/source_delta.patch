From 576c73add4793111b0b119be641d27b8069f2c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 001/117] fix: mrcal_project_pinhole() writes each of the N
 projected points

It wrote every result into q[0], leaving q[1..N-1] uninitialized
---
 mrcal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 4450142..3ce40fa 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -1455,8 +1455,8 @@ void mrcal_project_pinhole( // output
     for(int i=0; i<N; i++)
     {
         double pz_recip = 1. / v[i].z;
-        q->x = v[i].x*pz_recip * fx + cx;
-        q->y = v[i].y*pz_recip * fy + cy;
+        q[i].x = v[i].x*pz_recip * fx + cx;
+        q[i].y = v[i].y*pz_recip * fy + cy;
 
         if(dq_dv)
         {
-- 
2.43.0


From 6b3b919c57efb54986633c06337f8a7f7c667d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 002/117] fix: unproject() of a CAHVORE pixel behind the camera
 reports nan

It returned the mirrored vector, which projects somewhere else: unlike the
pinhole-based models, CAHVORE does not project v and -v to the same pixel
---
 mrcal.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 3ce40fa..e97f51f 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -3273,9 +3273,22 @@ bool _mrcal_unproject_internal( // out
                                           intrinsics);
             if(!model_supports_projection_behind_camera(lensmodel) && out->xyz[2] < 0.0)
             {
-                out->xyz[0] *= -1.0;
-                out->xyz[1] *= -1.0;
-                out->xyz[2] *= -1.0;
+                if(lensmodel->type == MRCAL_LENSMODEL_CAHVORE)
+                {
+                    // Unlike the pinhole-based models, here v and -v do NOT
+                    // project to the same pixel. So I cannot represent this
+                    // pixel with a vector in front of the camera
+                    double nan = strtod("NAN", NULL);
+                    out->xyz[0] = nan;
+                    out->xyz[1] = nan;
+                    out->xyz[2] = nan;
+                }
+                else
+                {
+                    out->xyz[0] *= -1.0;
+                    out->xyz[1] *= -1.0;
+                    out->xyz[2] *= -1.0;
+                }
             }
         }
 
-- 
2.43.0


From d3c56c74020b30ee3d25bb4a9908b7556f5f0de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:21 +0000
Subject: [PATCH 003/117] fix: mrcal_project() reports dq_dp for each point if
 dq_dintrinsics is NULL

---
 mrcal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal.c b/mrcal.c
index e97f51f..d065f29 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -2897,7 +2897,7 @@ bool _mrcal_project_internal( // out
             // simple non-intrinsics-gradient path
             project( &q[i],
                      NULL, NULL, NULL, NULL, NULL,
-                     NULL, NULL, NULL, dq_dp, NULL,
+                     NULL, NULL, NULL, dq_dp == NULL ? NULL : &dq_dp[2*i], NULL,
 
                      // in
                      intrinsics, NULL, &frame, NULL, true,
-- 
2.43.0


From 895c55ebaf8c8b1b089f3a7ce31c4d5b8fd87939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:21 +0000
Subject: [PATCH 004/117] fix: failed CAHVORE projections zero both rows of
 each gradient

---
 mrcal.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index d065f29..e0a2081 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -2505,10 +2505,10 @@ void _project_point( // outputs
             memset(q, 0, sizeof(*q));
             if(p_dq_dfxy)               memset(p_dq_dfxy,               0, sizeof(*p_dq_dfxy));
             if(p_dq_dintrinsics_nocore) memset(p_dq_dintrinsics_nocore, 0, sizeof(*p_dq_dintrinsics_nocore) * 2 * (Nintrinsics-4));
-            if(dq_drcamera)             memset(dq_drcamera,             0, sizeof(*dq_drcamera));
-            if(dq_dtcamera)             memset(dq_dtcamera,             0, sizeof(*dq_dtcamera));
-            if(dq_drframe)              memset(dq_drframe,              0, sizeof(*dq_drframe));
-            if(dq_dtframe)              memset(dq_dtframe,              0, sizeof(*dq_dtframe));
+            if(dq_drcamera)             memset(dq_drcamera,             0, 2*sizeof(*dq_drcamera));
+            if(dq_dtcamera)             memset(dq_dtcamera,             0, 2*sizeof(*dq_dtcamera));
+            if(dq_drframe)              memset(dq_drframe,              0, 2*sizeof(*dq_drframe));
+            if(dq_dtframe)              memset(dq_dtframe,              0, 2*sizeof(*dq_dtframe));
 
         }
     }
-- 
2.43.0


From 54147a3dc726b3fb652eaf7e9ef2c3a3bbd48636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 005/117] fix: rotations by a small r are second-order
 accurate, so that their gradients are right

---
 poseutils-uses-autodiff.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/poseutils-uses-autodiff.cc b/poseutils-uses-autodiff.cc
index 0669d8b..cf4a768 100644
--- a/poseutils-uses-autodiff.cc
+++ b/poseutils-uses-autodiff.cc
@@ -54,12 +54,16 @@ rotate_point_r_core(// output
     {
         // Small rotation. I don't want to divide by 0, so I take the limit
         //   lim(th->0, xrot) =
-        //     = x + cross(r, x) + r rt x lim(th->0, (1 - cos(th)) / (th*th))
-        //     = x + cross(r, x) + r rt x lim(th->0, sin(th) / (2*th))
-        //     = x + cross(r, x) + r rt x/2
+        //     = x cos(th) + cross(r, x) + r rt x lim(th->0, (1 - cos(th)) / (th*th))
+        //     = x cos(th) + cross(r, x) + r rt x lim(th->0, sin(th) / (2*th))
+        //     = x cos(th) + cross(r, x) + r rt x/2
+        //
+        // cos(th) ~ 1 - th^2/2. I need this term: it is as big as the r rt x/2
+        // one, and its gradient is linear in r
+        const val_withgrad_t<N> cos_th = val_withgrad_t<N>(1.) - th2/2.;
         for(int i=0; i<3; i++)
             x_outg[i] =
-                x_ing[i] +
+                x_ing[i]*cos_th +
                 cross[i] +
                 rg[i]*inner / 2.;
     }
-- 
2.43.0


From fbcff1d2260359946acb0148a3e4dee95abebf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:25 +0000
Subject: [PATCH 006/117] fix: mrcal_compose_rt_full(inverted0) can report
 dt_dt0 without dt_dt1

---
 poseutils.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/poseutils.c b/poseutils.c
index 6c8f5b8..4cef6ab 100644
--- a/poseutils.c
+++ b/poseutils.c
@@ -861,6 +861,14 @@ void mrcal_compose_rt_full( // output
         double t10[3] = { rt1[0+3] - rt0[0+3],
                           rt1[1+3] - rt0[1+3],
                           rt1[2+3] - rt0[2+3] };
+        // dt01/dt0 needs dt01/dt1, even if the caller didn't ask for it
+        double dt_t1_dummy[9];
+        if(dt_t0 != NULL && dt_t1 == NULL)
+        {
+            dt_t1         = dt_t1_dummy;
+            dt_t1_stride0 = 3*sizeof(double);
+            dt_t1_stride1 =   sizeof(double);
+        }
         mrcal_rotate_point_r_full( &P1(rt_out,3), rt_out_stride0,
                                    dt_r0, dt_r0_stride0, dt_r0_stride1,
                                    dt_t1, dt_t1_stride0, dt_t1_stride1,
-- 
2.43.0


From b4a60acf2367c75ec99d73a093b4978219e80bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:07 +0000
Subject: [PATCH 007/117] fix: pose functions work with negative strides
 (reversed numpy views)

---
 _strides.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/_strides.h b/_strides.h
index 96d4651..a3abaca 100644
--- a/_strides.h
+++ b/_strides.h
@@ -34,17 +34,19 @@ extern "C" {
 #define P2(x, i0,i1)    _P2(x, x##_stride0, x##_stride1,              i0,i1)
 #define P3(x, i0,i1,i2) _P3(x, x##_stride0, x##_stride1, x##_stride2, i0,i1,i2)
 
-// Init strides. If a given stride is <= 0, set the default, as we would have if
-// the data was contiguous
+// Init strides. If a given stride is 0 or -1, set the default, as we would have
+// if the data was contiguous. Any other negative stride is a real one: numpy
+// produces these for reversed views, such as x[::-1]
+#define _stride_is_default(stride) ((stride) == 0 || (stride) == -1)
 #define init_stride_1D(x, d0) \
-    if( x ## _stride0 <= 0) x ## _stride0 = sizeof(*x)
+    if( _stride_is_default(x ## _stride0) ) x ## _stride0 = sizeof(*x)
 #define init_stride_2D(x, d0, d1)                       \
-    if( x ## _stride1 <= 0) x ## _stride1 = sizeof(*x); \
-    if( x ## _stride0 <= 0) x ## _stride0 = d1 * x ## _stride1
+    if( _stride_is_default(x ## _stride1) ) x ## _stride1 = sizeof(*x); \
+    if( _stride_is_default(x ## _stride0) ) x ## _stride0 = d1 * x ## _stride1
 #define init_stride_3D(x, d0, d1, d2)                   \
-    if( x ## _stride2 <= 0) x ## _stride2 = sizeof(*x); \
-    if( x ## _stride1 <= 0) x ## _stride1 = d2 * x ## _stride2; \
-    if( x ## _stride0 <= 0) x ## _stride0 = d1 * x ## _stride1
+    if( _stride_is_default(x ## _stride2) ) x ## _stride2 = sizeof(*x); \
+    if( _stride_is_default(x ## _stride1) ) x ## _stride1 = d2 * x ## _stride2; \
+    if( _stride_is_default(x ## _stride0) ) x ## _stride0 = d1 * x ## _stride1
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From 2ed037b83bc07a013764330027bf671421e70843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:07 +0000
Subject: [PATCH 008/117] fix: unproject(get_gradients=True, out=...) accepts
 the documented tuple

---
 mrcal/projections.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mrcal/projections.py b/mrcal/projections.py
index f777533..10811dc 100644
--- a/mrcal/projections.py
+++ b/mrcal/projections.py
@@ -304,7 +304,7 @@ if get_gradients: we return a tuple:
                     not any(np.array(out[2].shape[:-len(dv_di_shape)]) - 1)):
                 raise Exception(f"Shape of out[2] doesn't match broadcasted shape for dv_di. Wanted {dv_di_shape}, but got {out[2].shape}")
             dv_di = out[2]
-            dv_di *= 0
+            dv_di[...] = 0
 
         # dv/df
         dv_di[..., :2] += nps.dummy((cxy - q)/fxy, -2) * dv_dq
@@ -378,8 +378,7 @@ if get_gradients: we return a tuple:
         dv_dq = nps.transpose(np.linalg.solve( nps.transpose(dq_du),
                                                nps.transpose(dv_du) ))
         if out is not None:
-            out[1] *= 0.
-            out[1] += dv_dq
+            out[1][...] = dv_dq
             dv_dq = out[1]
 
 
-- 
2.43.0


From a8da6bfb61cb96842986a7727fd1da86541f80c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:06 +0000
Subject: [PATCH 009/117] fix: mrcal_triangulate_lindstrom() scales the second
 step by d/bb, as in the paper

---
 triangulation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triangulation.cc b/triangulation.cc
index 679c0f9..b3564c3 100644
--- a/triangulation.cc
+++ b/triangulation.cc
@@ -369,7 +369,7 @@ mrcal_triangulate_lindstrom(// outputs
     // Step 12. l *= 2*d/( nps.inner(n,n) + nps.inner(nn,nn) )
     val_withgrad_t<18> bb = (n [0]*n [0] + n [1]*n [1] +
                              nn[0]*nn[0] + nn[1]*nn[1]) * 0.5;
-    l = l/d * bb;
+    l = l*d / bb;
 
     // Step 13. dx  = l*n
     dx[0] = l * n[0];
-- 
2.43.0


From e351f1e771fbb894c0c189fdd9693876c3022f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:06 +0000
Subject: [PATCH 010/117] fix: mrcal_triangulate_...() zero the gradients of
 divergent rays, instead of leaving them uninitialized

---
 triangulation.cc | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/triangulation.cc b/triangulation.cc
index b3564c3..950bbf4 100644
--- a/triangulation.cc
+++ b/triangulation.cc
@@ -101,6 +101,25 @@ triangulate_assume_intersect( // output
 }
 
 
+// Called when the rays don't converge. I report a point at (0,0,0) and zero
+// gradients. Any of the gradient pointers may be NULL
+static
+mrcal_point3_t
+report_divergent(mrcal_point3_t* dm_dv0,
+                 mrcal_point3_t* dm_dv1,
+                 // 9 values for dm_dt01, 36 for dm_dRt01
+                 mrcal_point3_t* dm_d01,
+                 const int       N01)
+{
+    if(dm_dv0 != NULL)
+        for(int i=0; i<3; i++) dm_dv0[i] = (mrcal_point3_t){0};
+    if(dm_dv1 != NULL)
+        for(int i=0; i<3; i++) dm_dv1[i] = (mrcal_point3_t){0};
+    if(dm_d01 != NULL)
+        for(int i=0; i<N01/3; i++) dm_d01[i] = (mrcal_point3_t){0};
+    return (mrcal_point3_t){0};
+}
+
 #warning "These all have NGRAD=9, which is inefficient: some/all of the requested gradients could be NULL"
 
 // Basic closest-approach-in-3D routine
@@ -169,13 +188,13 @@ mrcal_triangulate_geometric(// outputs
 
     val_withgrad_t<9> denom = dot_v0v0*dot_v1v1 - dot_v0v1*dot_v0v1;
     if(-1e-10 <= denom.x && denom.x <= 1e-10)
-        return (mrcal_point3_t){0};
+        return report_divergent(_dm_dv0, _dm_dv1, _dm_dt01, 9);
 
     val_withgrad_t<9> denom_recip = val_withgrad_t<9>(1.)/denom;
     val_withgrad_t<9> k0 = denom_recip * (dot_v1v1*dot_v0t - dot_v0v1*dot_v1t);
-    if(k0.x <= 0.0) return (mrcal_point3_t){0};
+    if(k0.x <= 0.0) return report_divergent(_dm_dv0, _dm_dv1, _dm_dt01, 9);
     val_withgrad_t<9> k1 = denom_recip * (dot_v0v1*dot_v0t - dot_v0v0*dot_v1t);
-    if(k1.x <= 0.0) return (mrcal_point3_t){0};
+    if(k1.x <= 0.0) return report_divergent(_dm_dv0, _dm_dv1, _dm_dt01, 9);
 
     vec_withgrad_t<9,3> m = (v0*k0 + v1*k1 + t01) * 0.5;
 
@@ -410,7 +429,7 @@ mrcal_triangulate_lindstrom(// outputs
     // with that assumption
     vec_withgrad_t<18,3> m;
     if(!triangulate_assume_intersect(m, v0, Rv1, t01))
-        return (mrcal_point3_t){0};
+        return report_divergent(_dm_dv0, _dm_dv1, _dm_dRt01, 36);
 
     mrcal_point3_t _m;
     m.extract_value(_m.xyz);
@@ -488,7 +507,7 @@ mrcal_triangulate_leecivera_l1(// outputs
 
     vec_withgrad_t<9,3> m;
     if(!triangulate_assume_intersect(m, v0, v1, t01))
-        return (mrcal_point3_t){0};
+        return report_divergent(_dm_dv0, _dm_dv1, _dm_dt01, 9);
 
     mrcal_point3_t _m;
     m.extract_value(_m.xyz);
@@ -551,7 +570,7 @@ mrcal_triangulate_leecivera_linf(// outputs
     // with that assumption
     vec_withgrad_t<9,3> m;
     if(!triangulate_assume_intersect(m, v0, v1, t01))
-        return (mrcal_point3_t){0};
+        return report_divergent(_dm_dv0, _dm_dv1, _dm_dt01, 9);
 
     mrcal_point3_t _m;
     m.extract_value(_m.xyz);
@@ -665,7 +684,7 @@ mrcal_triangulate_leecivera_mid2(// outputs
     val_withgrad_t<9> l1 = (cross_norm2<9>(v0, t01) * p_norm2_recip).sqrt();
 
     if(!chirality(l0, v0, l1, v1, t01))
-        return (mrcal_point3_t){0};
+        return report_divergent(_dm_dv0, _dm_dv1, _dm_dt01, 9);
 
     vec_withgrad_t<9,3> m = (v0*l0 + t01+v1*l1) / 2.0;
 
@@ -740,7 +759,7 @@ mrcal_triangulate_leecivera_wmid2(// outputs
     val_withgrad_t<9> l1 = cross_mag<9>(v0, t01) * p_mag_recip;
 
     if(!chirality(l0, v0, l1, v1, t01))
-        return (mrcal_point3_t){0};
+        return report_divergent(_dm_dv0, _dm_dv1, _dm_dt01, 9);
 
     vec_withgrad_t<9,3> m = (v0*l0*l1 + t01*l0 + v1*l0*l1) / (l0 + l1);
 
-- 
2.43.0


From 3c5d7770126281863f7736579baac0f30575081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:06 +0000
Subject: [PATCH 011/117] fix: triangulation of short observation vectors isn't
 reported as divergent

---
 triangulation.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/triangulation.cc b/triangulation.cc
index 950bbf4..c0d1576 100644
--- a/triangulation.cc
+++ b/triangulation.cc
@@ -44,6 +44,10 @@ triangulate_assume_intersect( // output
     double fabs_det_xz = fabs(-v0.v[0].x*v1.v[2].x + v0.v[2].x*v1.v[0].x);
     double fabs_det_yz = fabs(-v0.v[1].x*v1.v[2].x + v0.v[2].x*v1.v[1].x);
 
+    // The dets scale with the length of v0,v1, which aren't necessarily
+    // normalized. So the threshold does too
+    const double det_threshold = 1e-10 * sqrt(v0.norm2().x * v1.norm2().x);
+
     // If using xz, I have:
     //
     //   k = 1/(-v0[0]*v1[2] + v0[2]*v1[0]) * [-v1[2]     v1[0] ] t01
@@ -53,7 +57,7 @@ triangulate_assume_intersect( // output
     if(fabs_det_xz > fabs_det_yz)
     {
         // xz
-        if(fabs_det_xz <= 1e-10)
+        if(fabs_det_xz <= det_threshold)
             return false;
 
         val_withgrad_t<NGRAD> det = v1.v[0]*v0.v[2] - v0.v[0]*v1.v[2];
@@ -75,7 +79,7 @@ triangulate_assume_intersect( // output
     else
     {
         // yz
-        if(fabs_det_yz <= 1e-10)
+        if(fabs_det_yz <= det_threshold)
             return false;
 
         val_withgrad_t<NGRAD> det = v1.v[1]*v0.v[2] - v0.v[1]*v1.v[2];
@@ -187,7 +191,8 @@ mrcal_triangulate_geometric(// outputs
     val_withgrad_t<9> dot_v1t  = v1.dot(t01);
 
     val_withgrad_t<9> denom = dot_v0v0*dot_v1v1 - dot_v0v1*dot_v0v1;
-    if(-1e-10 <= denom.x && denom.x <= 1e-10)
+    // relative to the length of v0,v1: these aren't necessarily normalized
+    if(fabs(denom.x) <= 1e-10 * dot_v0v0.x*dot_v1v1.x)
         return report_divergent(_dm_dv0, _dm_dv1, _dm_dt01, 9);
 
     val_withgrad_t<9> denom_recip = val_withgrad_t<9>(1.)/denom;
-- 
2.43.0


From 8eb10107abf789b1fce20cb25ca0f3f0adc8edfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:24 +0000
Subject: [PATCH 012/117] fix: triangulate_lindstrom(v_are_local=False)
 broadcasts over Rt01

---
 mrcal/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/triangulation.py b/mrcal/triangulation.py
index c4cbd3f..cd117ff 100644
--- a/mrcal/triangulation.py
+++ b/mrcal/triangulation.py
@@ -941,7 +941,7 @@ if get_gradients: we return a tuple:
     if not v_are_local:
         if get_gradients:
             raise Exception("get_gradients is True, so v_are_local MUST be True")
-        v1 = mrcal.rotate_point_R(nps.transpose(Rt01[:3,:]), v1)
+        v1 = mrcal.rotate_point_R(nps.transpose(Rt01[...,:3,:]), v1)
 
     if not get_gradients:
         return mrcal._triangulation_npsp._triangulate_lindstrom(v0, v1, Rt01, out=out)
-- 
2.43.0


From 6061906b900fba539ef337c1e3652d57f421b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:24 +0000
Subject: [PATCH 013/117] fix: stereo_range() broadcasts disparity and qrect0,
 as documented

---
 mrcal/stereo.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mrcal/stereo.py b/mrcal/stereo.py
index 1efe69b..c77f90f 100644
--- a/mrcal/stereo.py
+++ b/mrcal/stereo.py
@@ -1293,17 +1293,23 @@ RETURNED VALUES
 
     else:
 
+        # _stereo_range_sparse() wants identical shapes, so I broadcast here
+        shape     = np.broadcast_shapes(disparity.shape, qrect0.shape[:-1])
+        disparity = np.broadcast_to(disparity, shape)
+        qrect0    = np.broadcast_to(qrect0,    shape + (2,))
+
         r =                                     \
             mrcal._mrcal_npsp._stereo_range_sparse \
-                ( disparity            = disparity.astype(float) / disparity_scale,
-                  qrect0               = qrect0.astype(float),
+                ( disparity            = disparity.astype(float, order='C') / disparity_scale,
+                  qrect0               = qrect0.astype(float, order='C'),
                   disparity_min        = float(disparity_min),
                   disparity_max        = float(disparity_max),
                   rectification_model_type = models_rectified[0].intrinsics()[0],
                   fxycxy_rectified     = models_rectified[0].intrinsics()[1].astype(float),
                   baseline             = baseline )
 
-    if is_scalar:
+    # r is larger than (1,) if qrect0 was broadcast
+    if is_scalar and r.shape == (1,):
         r = r[0]
     return r
 
-- 
2.43.0


From 87ac3246a97d238e0b1ce1e6470a96036f202591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:46 +0000
Subject: [PATCH 014/117] fix: mrcal_lensmodel_name() reports the full CAHVORE
 linearity

---
 types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.h b/types.h
index f551331..a799665 100644
--- a/types.h
+++ b/types.h
@@ -68,7 +68,7 @@ static_assert(sizeof(uint16_t) == sizeof(unsigned short int), "I need a short to
 // Configuration for CAHVORE. These are given as an an
 // "X macro": https://en.wikipedia.org/wiki/X_Macro
 #define MRCAL_LENSMODEL_CAHVORE_CONFIG_LIST(_, cookie) \
-    _(linearity,    double, "d", ".2f", "lf", , cookie)
+    _(linearity,    double, "d", ".10g", "lf", , cookie)
 typedef struct
 {
     MRCAL_LENSMODEL_CAHVORE_CONFIG_LIST(_MRCAL_ITEM_DEFINE_ELEMENT, )
-- 
2.43.0


From fcc6b5ef009e855463cd74748d5f901d773f6e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:46 +0000
Subject: [PATCH 015/117] fix: lens model names with whitespace, signs or
 out-of-range numbers in the configuration are rejected

---
 mrcal.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index e0a2081..85bff12 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -124,11 +124,15 @@ static bool LENSMODEL_CAHVORE__scan_model_config( mrcal_LENSMODEL_CAHVORE__confi
                 MRCAL_LENSMODEL_CAHVORE_CONFIG_LIST(LENSMODEL_SCAN_CFG_ELEMENT_FMT, )"%n"
                 MRCAL_LENSMODEL_CAHVORE_CONFIG_LIST(LENSMODEL_SCAN_CFG_ELEMENT_VAR, ),
                 &pos) &&
-        config_str[pos] == '\0';
+        config_str[pos] == '\0' &&
+        // sscanf("%lf") accepts leading whitespace, nan and inf. I do not
+        strpbrk(config_str, " \t\n\v\f\r") == NULL &&
+        isfinite(config->linearity);
 }
 static bool LENSMODEL_SPLINED_STEREOGRAPHIC__scan_model_config( mrcal_LENSMODEL_SPLINED_STEREOGRAPHIC__config_t* config, const char* config_str)
 {
     int pos;
+    char canonical[256];
     int Nelements = 0 MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC_CONFIG_LIST(LENSMODEL_SCAN_CFG_ELEMENT_PLUS1, );
     return
         Nelements ==
@@ -136,7 +140,12 @@ static bool LENSMODEL_SPLINED_STEREOGRAPHIC__scan_model_config( mrcal_LENSMODEL_
                 MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC_CONFIG_LIST(LENSMODEL_SCAN_CFG_ELEMENT_FMT, )"%n"
                 MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC_CONFIG_LIST(LENSMODEL_SCAN_CFG_ELEMENT_VAR, ),
                 &pos) &&
-        config_str[pos] == '\0';
+        config_str[pos] == '\0' &&
+
+        // sscanf("%hu") accepts whitespace, signs and out-of-range values. I do
+        // not: the string must be the one I would write for this config
+        LENSMODEL_SPLINED_STEREOGRAPHIC__snprintf_model(canonical, sizeof(canonical), config) < (int)sizeof(canonical) &&
+        0 == strcmp(&canonical[strlen("LENSMODEL_SPLINED_STEREOGRAPHIC")], config_str);
 }
 
 const char* const* mrcal_supported_lensmodel_names( void )
-- 
2.43.0


From e8da433c6cf30052f20c2347770fc9fac8b5a653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:06 +0000
Subject: [PATCH 016/117] fix: mrcal_write_cameramodel_file() writes 10
 significant digits, like the Python code

---
 mrcal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 85bff12..8826548 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -6677,12 +6677,12 @@ bool mrcal_write_cameramodel_file(const char* filename,
     fprintf(fp, "  'lensmodel':  '%s',\n", lensmodel_string);
     fprintf(fp, "  'intrinsics': [ ");
     for(int i=0; i<Nparams; i++)
-        fprintf(fp, "%f, ", cameramodel->intrinsics[i]);
+        fprintf(fp, "%.10g, ", cameramodel->intrinsics[i]);
     fprintf(fp, "],\n");
     fprintf(fp, "  'imagersize': [ %u, %u ],\n",
             cameramodel->imagersize[0],
             cameramodel->imagersize[1]);
-    fprintf(fp, "  'extrinsics': [ %f, %f, %f, %f, %f, %f ]\n",
+    fprintf(fp, "  'extrinsics': [ %.10g, %.10g, %.10g, %.10g, %.10g, %.10g ]\n",
             cameramodel->rt_cam_ref[0],
             cameramodel->rt_cam_ref[1],
             cameramodel->rt_cam_ref[2],
-- 
2.43.0


From 0add81e162133f17abe83c44025b1ddfb9b5fe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:52 +0000
Subject: [PATCH 017/117] fix: splined lens models with an unsupported
 configuration are rejected, and do not crash the process later

---
 mrcal.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mrcal.c b/mrcal.c
index 8826548..58be9da 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -145,7 +145,13 @@ static bool LENSMODEL_SPLINED_STEREOGRAPHIC__scan_model_config( mrcal_LENSMODEL_
         // sscanf("%hu") accepts whitespace, signs and out-of-range values. I do
         // not: the string must be the one I would write for this config
         LENSMODEL_SPLINED_STEREOGRAPHIC__snprintf_model(canonical, sizeof(canonical), config) < (int)sizeof(canonical) &&
-        0 == strcmp(&canonical[strlen("LENSMODEL_SPLINED_STEREOGRAPHIC")], config_str);
+        0 == strcmp(&canonical[strlen("LENSMODEL_SPLINED_STEREOGRAPHIC")], config_str) &&
+
+        // Any other configuration cannot be used: assertions would fail later
+        (config->order == 2 || config->order == 3) &&
+        config->Nx >= config->order+1 &&
+        config->Ny >= config->order+1 &&
+        config->fov_x_deg > 0 && config->fov_x_deg < 360;
 }
 
 const char* const* mrcal_supported_lensmodel_names( void )
-- 
2.43.0


From c6108d4fd104542d1cb9f93e7505eff4410027e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:27 +0000
Subject: [PATCH 018/117] fix: ingest_packed_state() with a subset of the
 intrinsics, or without points to ingest

The intrinsics subset was written into a copy, and was thus lost
---
 mrcal/utils.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 7b19378..e74c145 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -1153,8 +1153,6 @@ None
     points         = optimization_inputs.get("points")
     calobject_warp = optimization_inputs.get("calobject_warp")
 
-    Npoints_fixed  = optimization_inputs.get('Npoints_fixed', 0)
-
     Nvars_intrinsics     = mrcal.num_states_intrinsics    (**optimization_inputs)
     Nvars_extrinsics     = mrcal.num_states_extrinsics    (**optimization_inputs)
     Nvars_frames         = mrcal.num_states_frames        (**optimization_inputs)
@@ -1181,17 +1179,18 @@ None
         lensmodel    = optimization_inputs['lensmodel']
         has_core     = mrcal.lensmodel_metadata_and_config(lensmodel)['has_core']
         Ncore        = 4 if has_core else 0
-        Ndistortions = mrcal.lensmodel_num_params(lensmodel) - Ncore
 
         do_optimize_intrinsics_core        = optimization_inputs.get('do_optimize_intrinsics_core',        True)
         do_optimize_intrinsics_distortions = optimization_inputs.get('do_optimize_intrinsics_distortions', True)
         if not do_optimize_intrinsics_core:
             iunpacked0 = Ncore
         if not do_optimize_intrinsics_distortions:
-            iunpacked1 = -Ndistortions
+            iunpacked1 = Ncore
 
-        intrinsics[:, iunpacked0:iunpacked1].ravel()[:] = \
-            b[ ivar0:Nvars_intrinsics ]
+        # If we're optimizing a subset of the intrinsics, this is a
+        # non-contiguous slice, and ravel() would make a copy
+        intrinsics[:, iunpacked0:iunpacked1] = \
+            b[ ivar0:ivar0+Nvars_intrinsics ].reshape(len(intrinsics),-1)
 
     ivar0 = mrcal.state_index_extrinsics(0, **optimization_inputs)
     if ivar0 is not None:
@@ -1203,7 +1202,7 @@ None
 
     ivar0 = mrcal.state_index_points(0, **optimization_inputs)
     if ivar0 is not None:
-        points.ravel()[:-Npoints_fixed*3] = b[ivar0:ivar0+Nvars_points]
+        points.ravel()[:Nvars_points] = b[ivar0:ivar0+Nvars_points]
 
     ivar0 = mrcal.state_index_calobject_warp(**optimization_inputs)
     if ivar0 is not None:
-- 
2.43.0


From b6c7e00e2dee7d147231e4e22eebecd138b35e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:27 +0000
Subject: [PATCH 019/117] fix: optimizer_callback() reports J with its full
 shape, even if the trailing columns are empty

---
 mrcal-pywrap.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 86dc537..fc3895e 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -37,10 +37,14 @@
 // adds a reference to P,I,X, unless an error is reported
 static PyObject* csr_from_cholmod_sparse( PyObject* P,
                                           PyObject* I,
-                                          PyObject* X )
+                                          PyObject* X,
+                                          int Nrows, int Ncols)
 {
     // I do the Python equivalent of this;
-    // scipy.sparse.csr_matrix((data, indices, indptr))
+    // scipy.sparse.csr_matrix((data, indices, indptr), shape=(Nrows,Ncols))
+    //
+    // The shape must be given. If omitted, the trailing columns that have no
+    // entries would be cut off
 
 
     PyObject* result = NULL;
@@ -61,9 +65,9 @@ static PyObject* csr_from_cholmod_sparse( PyObject* P,
 
     // Here I'm assuming specific types in my cholmod arrays. I tried to
     // static_assert it, but internally cholmod uses void*, so I can't do that
-    PyObject* MatrixDef = PyTuple_Pack(3, X, I, P);
-    args                = PyTuple_Pack(1, MatrixDef);
-    Py_DECREF(MatrixDef);
+    args = Py_BuildValue("((OOO)(ii))", X, I, P, Nrows, Ncols);
+    if(args == NULL)
+        goto done; // reuse already-set error
 
     if(NULL == (result = PyObject_CallObject(method, args)))
         goto done; // reuse already-set error
@@ -1997,7 +2001,8 @@ PyObject* _optimize(optimizemode_t optimizemode,
                 {
                     jacobian = csr_from_cholmod_sparse((PyObject*)P,
                                                        (PyObject*)I,
-                                                       (PyObject*)X);
+                                                       (PyObject*)X,
+                                                       Nmeasurements, Nstate);
                     if(jacobian == NULL)
                     {
                         // reuse the existing error
-- 
2.43.0


From b32f964dae9e7749cb6074011144fc20fe6805d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:27 +0000
Subject: [PATCH 020/117] fix: do_optimize_frames defaults to True in a
 points-only problem, as documented

---
 mrcal-pywrap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index fc3895e..203470c 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1454,7 +1454,7 @@ int fill_c_observations_point_triangulated(// output. I fill in the given arrays
     do_optimize_intrinsics_core        = do_optimize_intrinsics_core        >= 0 ? do_optimize_intrinsics_core        : (Ncameras_intrinsics>0), \
     do_optimize_intrinsics_distortions = do_optimize_intrinsics_distortions >= 0 ? do_optimize_intrinsics_distortions : (Ncameras_intrinsics>0), \
     do_optimize_extrinsics             = do_optimize_extrinsics             >= 0 ? do_optimize_extrinsics             : (Ncameras_extrinsics>0), \
-    do_optimize_frames                 = do_optimize_frames                 >= 0 ? do_optimize_frames                 : (Nframes            >0), \
+    do_optimize_frames                 = do_optimize_frames                 >= 0 ? do_optimize_frames                 : (Nframes>0 || Npoints>Npoints_fixed), \
     do_optimize_calobject_warp         = do_optimize_calobject_warp         >= 0 ? do_optimize_calobject_warp         : (Nobservations_board>0), \
     /* stuff not in the above if doesn't have a <0 default; those are all 0 or 1 already */          \
     (mrcal_problem_selections_t) { MRCAL_PROBLEM_SELECTIONS_LIST(PROBLEM_SELECTIONS_SET_BIT) } \
-- 
2.43.0


From ef28ae6f81a6764735675a2ec03eb998122f4ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:12 +0000
Subject: [PATCH 021/117] fix: the state and measurement functions accept the
 documented Ncameras_intrinsics=... arguments

These were reported as unknown optimization_inputs keys
---
 mrcal-pywrap.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 203470c..9b262bb 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1492,8 +1492,13 @@ static bool _handle_renamed(PyArrayObject** old, const char* name_old,
 static PyObject* _optimization_inputs_known_keys_frozenset;
 //  Replace the kwargs to keep only those that are known. The unknown ones that
 //  are not null trigger an error. This is intended for forwards compatibility
+//
+// keywords_extra[Nkeywords_extra] are known in addition to
+// mrcal._optimization_inputs_known_keys. These may contain NULL
 static bool optimization_inputs_kwargs_delete_unknown(PyObject** kwargs,
-                                                      bool* need_decref_kwargs)
+                                                      bool* need_decref_kwargs,
+                                                      char** keywords_extra,
+                                                      int Nkeywords_extra)
 {
     *need_decref_kwargs = false;
 
@@ -1520,6 +1525,11 @@ static bool optimization_inputs_kwargs_delete_unknown(PyObject** kwargs,
             Py_DECREF(kwargs_new);
             return false;
         }
+        for(int j=0; j<Nkeywords_extra && !contains; j++)
+            if(keywords_extra[j] != NULL &&
+               PyUnicode_Check(key) &&
+               0 == PyUnicode_CompareWithASCIIString(key, keywords_extra[j]))
+                contains = 1;
         if(contains)
         {
             if(0 != PyDict_SetItem(kwargs_new, key, value))
@@ -1590,7 +1600,8 @@ PyObject* _optimize(optimizemode_t optimizemode,
         goto done;
     }
 
-    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs))
+    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs,
+                                                  NULL, 0))
         goto done;
 
     int calibration_object_height_n = -1;
@@ -2217,8 +2228,6 @@ static PyObject* state_index_generic(callback_state_index_t cb,
     OPTIMIZE_ARGUMENTS_OPTIONAL(ARG_DEFINE);
 
     bool need_decref_kwargs = false;
-    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs))
-        goto done;
 
     int i = -1;
 
@@ -2240,6 +2249,11 @@ static PyObject* state_index_generic(callback_state_index_t cb,
                          OPTIMIZE_ARGUMENTS_OPTIONAL(NAMELIST)
                          NULL};
 
+    // 7: the leading argument and the six array sizes
+    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs,
+                                                  keywords, 7))
+        goto done;
+
     // needs to be big-enough to store the largest-possible called_function
 #define CALLED_FUNCTION_BUFFER "123456789012345678901234567890123456789012345678901234567890"
     char arg_string[] =
@@ -2332,7 +2346,7 @@ static PyObject* state_index_generic(callback_state_index_t cb,
 
     int calibration_object_height_n = -1;
     int calibration_object_width_n  = -1;
-    if( Nobservations_board > 0 )
+    if( Nobservations_board > 0 && !IS_NULL(observations_board) )
     {
         calibration_object_height_n = PyArray_DIMS(observations_board)[1];
         calibration_object_width_n  = PyArray_DIMS(observations_board)[2];
@@ -3437,8 +3451,6 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
     PyArrayObject* b = NULL;
 
     bool need_decref_kwargs = false;
-    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs))
-        goto done;
 
     int Ncameras_intrinsics = -1;
     int Ncameras_extrinsics = -1;
@@ -3458,6 +3470,11 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
                          OPTIMIZE_ARGUMENTS_OPTIONAL(NAMELIST)
                          NULL};
 
+    // 7: the leading argument and the six array sizes
+    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs,
+                                                  keywords, 7))
+        goto done;
+
 #define UNPACK_STATE "unpack_state"
     char arg_string[] =
         "O&"
-- 
2.43.0


From 760d27a1926c5ef2331df7a2a12e9e4d77a34652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:48 +0000
Subject: [PATCH 022/117] fix: the state and measurement functions report an
 error if called without keyword arguments, instead of crashing

---
 mrcal-pywrap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 9b262bb..3c28417 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1502,7 +1502,7 @@ static bool optimization_inputs_kwargs_delete_unknown(PyObject** kwargs,
 {
     *need_decref_kwargs = false;
 
-    if(!PyDict_Check(*kwargs))
+    if(*kwargs == NULL || !PyDict_Check(*kwargs))
         return true;
 
     PyObject* kwargs_new = PyDict_New();
-- 
2.43.0


From 88b97af21eaa0272134c0ded38753c5b32426186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:48 +0000
Subject: [PATCH 023/117] fix: pack_state(), unpack_state() of an empty state
 do not divide by 0

---
 mrcal-pywrap.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 3c28417..9c7a3b3 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -3575,7 +3575,11 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
     }
 
     double* x = (double*)PyArray_DATA(b);
-    if(pack)
+    if(Nstate == 0)
+    {
+        // nothing to do
+    }
+    else if(pack)
         for(int i=0; i<PyArray_SIZE(b)/Nstate; i++)
         {
             mrcal_pack_solver_state_vector( x,
-- 
2.43.0


From 04ea3cffc7cfbe9757f7476e460893040c35b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:19 +0000
Subject: [PATCH 024/117] fix: optimize(), optimizer_callback() do not ignore
 the legacy extrinsics_rt_fromref, frames_rt_toref arguments

---
 mrcal-pywrap.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 9c7a3b3..8971637 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1669,6 +1669,12 @@ PyObject* _optimize(optimizemode_t optimizemode,
         goto done;
     }
 
+    // This must happen before the missing arrays are replaced with empty ones
+    if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
+        goto done;
+    if(!handle_renamed(frames_rt_toref, rt_ref_frame))
+        goto done;
+
     // Some of my input arguments can be empty (None). The code all assumes that
     // everything is a properly-dimensioned numpy array, with "empty" meaning
     // some dimension is 0. Here I make this conversion. The user can pass None,
@@ -1703,11 +1709,6 @@ PyObject* _optimize(optimizemode_t optimizemode,
     SET_SIZE0_IF_NONE(imagersizes,                                            NPY_INT32,  0, 2);
 #undef SET_NULL_IF_NONE
 
-    if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
-        return false;
-    if(!handle_renamed(frames_rt_toref, rt_ref_frame))
-        return false;
-
     mrcal_lensmodel_t mrcal_lensmodel;
     // Check the arguments for optimize(). If optimizer_callback, then the other
     // stuff is defined, but it all has valid, default values
-- 
2.43.0


From f837318d8be05b31a0c81379d6d6b0b59e858882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 025/117] fix: unproject() failures are reported as nan in all
 3 components

out->xyz[2] was left uninitialized
---
 mrcal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mrcal.c b/mrcal.c
index 58be9da..273e7ae 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -3275,6 +3275,7 @@ bool _mrcal_unproject_internal( // out
             double nan = strtod("NAN", NULL);
             out->xyz[0] = nan;
             out->xyz[1] = nan;
+            out->xyz[2] = nan;
         }
         else
         {
-- 
2.43.0


From a201f2d401de1ffa6b66294febd14dc1b1b98f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 026/117] fix: optimize(verbose=True) does not abort with
 unity_cam01 regularization and without the other regularization

---
 mrcal.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 273e7ae..eeb4d46 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -6548,12 +6548,14 @@ mrcal_optimize( // out
             int Ncore = modelHasCore_fxfycxcy(lensmodel) ? 4 : 0;
 
             int Nmeasurements_regularization_distortion  = 0;
-            if(problem_selections.do_optimize_intrinsics_distortions)
+            if(problem_selections.do_apply_regularization &&
+               problem_selections.do_optimize_intrinsics_distortions)
                 Nmeasurements_regularization_distortion =
                     Ncameras_intrinsics*(ctx.Nintrinsics-Ncore);
 
             int Nmeasurements_regularization_centerpixel = 0;
-            if(problem_selections.do_optimize_intrinsics_core)
+            if(problem_selections.do_apply_regularization &&
+               problem_selections.do_optimize_intrinsics_core)
                 Nmeasurements_regularization_centerpixel =
                     Ncameras_intrinsics*2;
 
-- 
2.43.0


From e494577351c839f5685cc6ccf627977b26054868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 027/117] fix: align_procrustes_points_Rt01(): weighted fits
 minimize the documented cost

The rotation was computed from the data centered at the unweighted mean, and
from weights[i] instead of weights[i]^2. So neither sum( norm2(w e) ) nor
sum( w norm2(e) ) was minimized
---
 mrcal/utils.py | 16 +++++++++++++---
 poseutils.c    | 38 ++++++++++++++++++++++++++++++--------
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index e74c145..404fbbc 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -45,10 +45,20 @@ def _align_procrustes_points_Rt01(p0, p1, weights):
     p0 = nps.transpose(p0)
     p1 = nps.transpose(p1)
 
+    # I minimize sum( norm2( w[i] (a[i] - R b[i] - t) ) ). The optimal t lines up
+    # the means, weighted by w[i]^2
+    ww     = weights*weights
+    sum_ww = np.sum(ww)
+    if sum_ww == 0:
+        # Poorly-defined problem. Return error
+        return np.zeros((4,3), dtype=float)
+    pmean0 = nps.matmult(p0, nps.transpose(ww)) / sum_ww
+    pmean1 = nps.matmult(p1, nps.transpose(ww)) / sum_ww
+
     # I process Mt instead of M to not need to transpose anything later, and to
     # end up with contiguous-memory results
-    Mt = nps.matmult(              (p0 - np.mean(p0, axis=-1)[..., np.newaxis])*weights,
-                      nps.transpose(p1 - np.mean(p1, axis=-1)[..., np.newaxis]))
+    Mt = nps.matmult(              (p0 - pmean0)*ww,
+                      nps.transpose(p1 - pmean1))
     V,S,Ut = np.linalg.svd(Mt)
 
     # I look at the second-lowest singular value. One 0 singular value is OK;
@@ -69,7 +79,7 @@ def _align_procrustes_points_Rt01(p0, p1, weights):
     # Now that I have my optimal R, I compute the optimal t. From before:
     #
     #   t = mean(a) - R mean(b)
-    t = np.mean(p0, axis=-1)[..., np.newaxis] - nps.matmult( R, np.mean(p1, axis=-1)[..., np.newaxis] )
+    t = pmean0 - nps.matmult( R, pmean1 )
 
     return nps.glue( R, t.ravel(), axis=-2)
 
diff --git a/poseutils.c b/poseutils.c
index 4cef6ab..f06e82f 100644
--- a/poseutils.c
+++ b/poseutils.c
@@ -1481,7 +1481,11 @@ bool _align_procrustes_vectors_R01(// out
 
                                    // (N,) array; may be NULL to use an even
                                    // weighting
-                                   const double* weights)
+                                   const double* weights,
+
+                                   // if true, each term in the cost is scaled
+                                   // by weights[i]^2 instead of weights[i]
+                                   const bool square_weights)
 {
     double M[9] = {};
 
@@ -1498,10 +1502,14 @@ bool _align_procrustes_vectors_R01(// out
                     M[j*3 + k] += (p0[i*3+j]-pmean0[j])*(p1[i*3+k]-pmean1[k]);
     else
         for(int i=0; i<N; i++)
+        {
+            const double w = square_weights ? weights[i]*weights[i] : weights[i];
+
             // I compute outer(v0,v1)
             for(int j=0; j<3; j++)
                 for(int k=0; k<3; k++)
-                    M[j*3 + k] += (p0[i*3+j]-pmean0[j])*(p1[i*3+k]-pmean1[k])*weights[i];
+                    M[j*3 + k] += (p0[i*3+j]-pmean0[j])*(p1[i*3+k]-pmean1[k])*w;
+        }
 
 
     double U[9];
@@ -1611,7 +1619,7 @@ bool mrcal_align_procrustes_vectors_R01(// out
                                         // weighting
                                         const double* weights)
 {
-    return _align_procrustes_vectors_R01(R01,N,v0,v1,NULL,NULL,weights);
+    return _align_procrustes_vectors_R01(R01,N,v0,v1,NULL,NULL,weights,false);
 }
 
 bool mrcal_align_procrustes_points_Rt01(// out
@@ -1626,21 +1634,35 @@ bool mrcal_align_procrustes_points_Rt01(// out
                                         // weighting
                                         const double* weights)
 {
+    // I minimize sum( norm2( w[i] (a[i] - R b[i] - t) ) ). The optimal t lines up
+    // the means, weighted by w[i]^2
     double pmean0[3] = {};
     double pmean1[3] = {};
+    double sum_ww    = 0.;
 
     for(int i=0; i<N; i++)
+    {
+        const double ww = (weights == NULL) ? 1.0 : weights[i]*weights[i];
+        sum_ww += ww;
         for(int j=0; j<3; j++)
         {
-            pmean0[j] += p0[i*3+j];
-            pmean1[j] += p1[i*3+j];
+            pmean0[j] += ww*p0[i*3+j];
+            pmean1[j] += ww*p1[i*3+j];
         }
+    }
+    if(sum_ww == 0.0)
+    {
+        // Poorly-defined problem. Same "secret value" as in
+        // _align_procrustes_vectors_R01()
+        Rt01[0] = 0.;
+        return false;
+    }
     for(int j=0; j<3; j++)
     {
-        pmean0[j] /= (double)N;
-        pmean1[j] /= (double)N;
+        pmean0[j] /= sum_ww;
+        pmean1[j] /= sum_ww;
     }
-    if(!_align_procrustes_vectors_R01(Rt01,N,p0,p1,pmean0,pmean1,weights))
+    if(!_align_procrustes_vectors_R01(Rt01,N,p0,p1,pmean0,pmean1,weights,true))
         return false;
 
     // t = pmean0 - R01 pmean1
-- 
2.43.0


From d76fe9b19cc6f37caea3ec2219d8f3ec14e8e625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 028/117] fix: align_procrustes_...() reports degenerate data
 at any scale, and only degenerate data

The singular-value threshold was absolute: collinear points of ordinary size
weren't reported as singular, and well-posed small-scale data was
---
 mrcal/utils.py | 13 +++++++++----
 poseutils.c    | 19 +++++++++++++++++--
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 404fbbc..8392841 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -62,8 +62,11 @@ def _align_procrustes_points_Rt01(p0, p1, weights):
     V,S,Ut = np.linalg.svd(Mt)
 
     # I look at the second-lowest singular value. One 0 singular value is OK;
-    # two isn't
-    if S[-2] < 1e-12:
+    # two isn't. The scale of the data is arbitrary, so the thresholds are
+    # relative. The second check catches coincident points: the centered data is
+    # then only round-off, relative to the input
+    if S[-2] <= 1e-12*S[0] or \
+       S[-2] <= 1e-28*np.sqrt(np.sum(p0*p0*ww) * np.sum(p1*p1*ww)):
         # Poorly-defined problem. Return error
         return np.zeros((4,3), dtype=float)
 
@@ -111,8 +114,10 @@ def _align_procrustes_vectors_R01(v0, v1, weights):
     V,S,Ut = np.linalg.svd(Mt)
 
     # I look at the second-lowest singular value. One 0 singular value is OK;
-    # two isn't
-    if S[-2] < 1e-12:
+    # two isn't. The scale of the data is arbitrary, so the thresholds are
+    # relative
+    if S[-2] <= 1e-12*S[0] or \
+       S[-2] <= 1e-28*np.sqrt(np.sum(v0*v0*weights) * np.sum(v1*v1*weights)):
         # Poorly-defined problem. Return error
         return np.zeros((3,3), dtype=float)
 
diff --git a/poseutils.c b/poseutils.c
index f06e82f..fc17b13 100644
--- a/poseutils.c
+++ b/poseutils.c
@@ -1565,8 +1565,23 @@ bool _align_procrustes_vectors_R01(// out
 
     // I look at the second-lowest singular value. One 0 singular value is OK
     // (the other two can uniquely define my 3D basis). But two isn't OK: the
-    // basis is no longer unique
-    if(S[1] < 1e-12)
+    // basis is no longer unique. The scale of the data is arbitrary, so the
+    // thresholds are relative. The second check catches coincident points: the
+    // centered data is then only round-off, relative to the input
+    double norm2_p0 = 0.;
+    double norm2_p1 = 0.;
+    for(int i=0; i<N; i++)
+    {
+        double w = 1.;
+        if(weights != NULL) w = square_weights ? weights[i]*weights[i] : weights[i];
+        for(int j=0; j<3; j++)
+        {
+            norm2_p0 += w*p0[i*3+j]*p0[i*3+j];
+            norm2_p1 += w*p1[i*3+j]*p1[i*3+j];
+        }
+    }
+    if(S[1] <= 1e-12*S[0] ||
+       S[1] <= 1e-28*sqrt(norm2_p0*norm2_p1))
     {
         // Poorly-defined problem
         //
-- 
2.43.0


From 117fd3aa8c6aff5e600dd1c345569e12957ba26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 029/117] fix: cameramodel(model): the optimization_inputs in
 the copy are usable

The serialized string is a bytes object. str() made it b..., which isn't
valid base-85, so copy.optimization_inputs() threw an exception
---
 mrcal/cameramodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index ae8a8cb..7289e73 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -875,7 +875,7 @@ ARGUMENTS
                     self._valid_intrinsics_region = None
 
                 if file_or_model._optimization_inputs_string is not None:
-                    self._optimization_inputs_string = str(file_or_model._optimization_inputs_string)
+                    self._optimization_inputs_string = bytes(file_or_model._optimization_inputs_string)
                 else:
                     self._optimization_inputs_string = None
 
-- 
2.43.0


From e615b4df18c1231a2c00a09e85dc4c118c59553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:27 +0000
Subject: [PATCH 030/117] fix: cameramodel.optimization_inputs_reset() clears
 icam_intrinsics and icam_extrinsics too

Otherwise the model was written with icam_... and without optimization_inputs,
and the resulting file couldn't be read back
---
 mrcal/cameramodel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 7289e73..7cf6517 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1956,6 +1956,10 @@ RETURNED VALUE
 None
         '''
         self._optimization_inputs_string = None
+        # These make sense only together with the optimization_inputs. If these
+        # remained, the written model would be unreadable
+        self._icam_intrinsics            = None
+        self._icam_extrinsics            = None
 
 
     def _optimization_inputs_match(self, other_model):
-- 
2.43.0


From 3fb7c9a893278f0d62f0ddacad3bf557772b7cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 031/117] fix: C cameramodel parser: reject imagersize values
 that don't fit in an int or aren't positive

4294967297 was silently interpreted as 1. And the height was allowed to be 0
---
 cameramodel-parser.re | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cameramodel-parser.re b/cameramodel-parser.re
index cd170da..d208b7e 100644
--- a/cameramodel-parser.re
+++ b/cameramodel-parser.re
@@ -22,6 +22,8 @@
 #include <stdlib.h>
 #include <string.h>
 #include <float.h>
+#include <limits.h>
+#include <errno.h>
 #include <math.h>
 
 #include "mrcal.h"
@@ -217,14 +219,16 @@ static bool ingest_uint_consume_ignorable(void* out0, int i,
         char tok[N+1];
         memcpy(tok, s, N);
         tok[N] = '\0';
-        int si = atoi(tok);
-        if( N == 0 || si < 0 )
+        errno = 0;
+        char* endptr = NULL;
+        long li = strtol(tok, &endptr, 10);
+        if( N == 0 || endptr != &tok[N] || errno != 0 || li < 0 || li > INT_MAX )
         {
             MSG("Error parsing unsigned int for %s at %ld. String: '%s'",
                 what, (long int)(*pYYCURSOR-start_file), tok);
             return false;
         }
-        ((unsigned int*)out0)[i] = (unsigned int)si;
+        ((unsigned int*)out0)[i] = (unsigned int)li;
     }
 
     *pYYCURSOR = YYCURSOR;
@@ -640,7 +644,8 @@ bool read_cameramodel_from_string(// output buffer. If it should be allocated,
     if(!(model_not_intrinsics.lensmodel.type >= 0 &&
          did_read_intrinsics &&
          model_not_intrinsics.rt_cam_ref[0] != DBL_MAX &&
-         model_not_intrinsics.imagersize[0] > 0))
+         model_not_intrinsics.imagersize[0] > 0 &&
+         model_not_intrinsics.imagersize[1] > 0))
     {
         MSG("Incomplete cameramodel. Need keys: lensmodel, intrinsics, rt_cam_ref/extrinsics, imagersize");
         if(model_need_dealloc)
-- 
2.43.0


From feabb2cec0565aef37696924726afa0e0aeaf252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 032/117] fix: cameramodel: too-big imagersize values are
 rejected instead of wrapping around to something negative

---
 mrcal/cameramodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 7cf6517..7a505cc 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -75,6 +75,8 @@ def _validateIntrinsics(imagersize,
         raise Exception("The imagersize must be an iterable of two positive integers")
     if imagersize[0] != int(imagersize[0]) or imagersize[1] != int(imagersize[1]):
         raise Exception("The imagersize must be an iterable of two positive integers")
+    if imagersize[0] > np.iinfo(np.int32).max or imagersize[1] > np.iinfo(np.int32).max:
+        raise Exception("The imagersize values are too big")
 
     try:
         N = len(i)
-- 
2.43.0


From df0a1bd6cb60113f026189edce85e4d5baa91260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 033/117] fix: C cameramodel parser: accept values such as
 1e+10 in the lists of unknown keys

The python code writes these in valid_intrinsics_region
---
 cameramodel-parser.re | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameramodel-parser.re b/cameramodel-parser.re
index d208b7e..7fd2fb2 100644
--- a/cameramodel-parser.re
+++ b/cameramodel-parser.re
@@ -310,12 +310,12 @@ static bool read_balanced_list( const char** pYYCURSOR, const char* start_file )
     while(true)
     {
         /*!re2c
-          ( IGNORE | [0-9eE.,-]*)* [[(]
+          ( IGNORE | [0-9eE.,+-]*)* [[(]
           {
             level++;
             continue;
           }
-          ( IGNORE | [0-9eE.,-]*)* [\])] IGNORE ","?
+          ( IGNORE | [0-9eE.,+-]*)* [\])] IGNORE ","?
           {
             level--;
             if(level < 0)
-- 
2.43.0


From 44c3aeb42c6062d30ef2912a4c1f1d09f8a8dd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 034/117] fix: cameramodel: files with non-numerical intrinsics
 are rejected. None was read as nan

---
 mrcal/cameramodel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 7a505cc..d631fd8 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -641,10 +641,11 @@ A sample valid .cameramodel file:
             else:
                 valid_intrinsics_region = np.zeros((0,2))
 
-        intrinsics = (model['lensmodel'], np.array(model['intrinsics'], dtype=float))
-
+        # I validate the raw data, BEFORE numpy converts things that aren't numbers.
+        # None would become nan, for instance
         _validateIntrinsics(model['imagersize'],
-                            intrinsics)
+                            (model['lensmodel'], model['intrinsics']))
+        intrinsics = (model['lensmodel'], np.array(model['intrinsics'], dtype=float))
         try:
             _validateValidIntrinsicsRegion(valid_intrinsics_region)
         except Exception as e:
-- 
2.43.0


From 50efaa560b580732fbd757e97f040b217219b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:04 +0000
Subject: [PATCH 035/117] fix: rectified_system(): reject pinhole systems with
 a field of view >= 180deg. These exited the process or produced a different
 field of view

---
 stereo.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stereo.c b/stereo.c
index ec97040..9b929eb 100644
--- a/stereo.c
+++ b/stereo.c
@@ -483,6 +483,13 @@ bool mrcal_rectified_system2(// output
         MSG("az_fov_deg, el_fov_deg must be > 0. No auto-detection implemented yet");
         return false;
     }
+    if( rectification_model_type == MRCAL_LENSMODEL_PINHOLE &&
+        !(azel_fov_deg->x < 180. &&
+          azel_fov_deg->y < 180.) )
+    {
+        MSG("LENSMODEL_PINHOLE rectification requires az_fov_deg, el_fov_deg < 180");
+        return false;
+    }
 
 
     // Compute the geometry of the rectified stereo system. This is a
-- 
2.43.0


From fdc5fc67ecbc5db0091e8c8942c88f86db20eecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:09 +0000
Subject: [PATCH 036/117] fix: project(): correct gradients at the optical axis
 of a CAHVORE model. The r0 term was ignored there

---
 cahvore.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cahvore.cc b/cahvore.cc
index 686d056..198a3b2 100644
--- a/cahvore.cc
+++ b/cahvore.cc
@@ -144,7 +144,11 @@ bool _project_cahvore_internals( // outputs
         *pdistorted = uu + vv;
     }
     else
-        *pdistorted = p;
+    {
+        // In the limit theta -> 0 we have zetap -> zeta, mu -> r0. The r0 term
+        // is negligible here, but its gradient is not
+        *pdistorted = p + ll*r0;
+    }
     return true;
 }
 
-- 
2.43.0


From 38c1cb344db601e71e8462f39e0fa2975b8118c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 037/117] fix: stereo_range(): floating-point, 32-bit and
 non-contiguous disparity images, fractional scales and limits are handled.
 They were truncated to 16-bit integers

---
 mrcal/stereo.py | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/mrcal/stereo.py b/mrcal/stereo.py
index c77f90f..a2f3d74 100644
--- a/mrcal/stereo.py
+++ b/mrcal/stereo.py
@@ -1236,7 +1236,16 @@ RETURNED VALUES
        (isinstance(disparity, np.ndarray) and disparity.dtype == np.int16):
         disparity_scaled_max = 0x7FFF
 
-    if qrect0 is None:
+    # The dense C path handles 16-bit integer images only. Anything else
+    # (floating-point disparities for instance) is processed as the equivalent
+    # sparse call
+    use_dense =                                            \
+        qrect0 is None                                 and \
+        isinstance(disparity, np.ndarray)              and \
+        disparity.dtype in (np.int16, np.uint16)       and \
+        0 < disparity_scale <= np.iinfo(np.uint16).max and \
+        disparity_scale == int(disparity_scale)
+    if use_dense:
         if disparity_scaled_min is None:
             if disparity_min is None:
                 disparity_scaled_min = 0
@@ -1244,10 +1253,20 @@ RETURNED VALUES
                 disparity_scaled_min = disparity_min * disparity_scale
         if disparity_scaled_max is None:
             if disparity_max is None:
-                disparity_scaled_max = np.uint16(np.iinfo(np.uint16).max)
+                disparity_scaled_max = np.iinfo(np.uint16).max
             else:
                 disparity_scaled_max = disparity_max * disparity_scale
-    else:
+        if disparity_scaled_min >= disparity_scaled_max:
+            raise Exception("Must have disparity_max > disparity_min")
+
+        # The disparities are integers, so I can round the limits inwards. When
+        # interpreted as unsigned, the negative int16 values are past 0x7FFF
+        disparity_scaled_min_dense = np.ceil( np.clip(disparity_scaled_min, 0, np.iinfo(np.uint16).max))
+        disparity_scaled_max_dense = np.floor(np.clip(disparity_scaled_max, 0, np.iinfo(disparity.dtype).max))
+        if disparity_scaled_min_dense >= disparity_scaled_max_dense:
+            use_dense = False
+
+    if not use_dense:
         if disparity_min is None:
             if disparity_scaled_min is None:
                 disparity_min = 0
@@ -1281,12 +1300,19 @@ RETURNED VALUES
         if np.any(disparity.shape - np.array((H,W),dtype=int)):
             raise Exception(f"qrect0 is None, so the given disparity and full rectified images MUST have the same dimensions. I have {disparity.shape=} and {models_rectified[0].imagersize()=}")
 
+        if not use_dense:
+            # shape (H,W,2)
+            qrect0 = np.stack(np.meshgrid(np.arange(W,dtype=float),
+                                          np.arange(H,dtype=float)),
+                              axis = -1)
+
+    if use_dense:
         r =                                    \
             mrcal._mrcal_npsp._stereo_range_dense \
-                ( disparity_scaled     = disparity.astype(np.uint16),
+                ( disparity_scaled     = disparity.astype(np.uint16, order='C'),
                   disparity_scale      = np.uint16(disparity_scale),
-                  disparity_scaled_min = np.uint16(disparity_scaled_min),
-                  disparity_scaled_max = np.uint16(disparity_scaled_max),
+                  disparity_scaled_min = np.uint16(disparity_scaled_min_dense),
+                  disparity_scaled_max = np.uint16(disparity_scaled_max_dense),
                   rectification_model_type = models_rectified[0].intrinsics()[0],
                   fxycxy_rectified     = models_rectified[0].intrinsics()[1].astype(float),
                   baseline             = baseline )
-- 
2.43.0


From bb30f21ab0d9367d938354f598aff6b2a7f098dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:16 +0000
Subject: [PATCH 038/117] fix: load_image(bits_per_pixel=8) of a 16-bit image:
 the maximum may come first, or the image may be constant

---
 image.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/image.c b/image.c
index ea1b289..45b4a7f 100644
--- a/image.c
+++ b/image.c
@@ -383,12 +383,13 @@ void stretch_equalization_uint8_from_uint16(mrcal_image_uint8_t* out,
         for (int j=0; j<in->width; j++)
         {
             const uint16_t x = row_in[j];
-            if      (x < min) min = x;
-            else if (x > max) max = x;
+            if(x < min) min = x;
+            if(x > max) max = x;
         }
     }
 
-    uint16_t max_min = max-min;
+    // If the image is constant, everything maps to 0
+    const uint16_t max_min = max > min ? max-min : 1;
 
     for(int i=0; i<in->height; i++)
     {
-- 
2.43.0


From ceae2bd04ecae77bccd248acf1acb7319f7a6f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:16 +0000
Subject: [PATCH 039/117] fix: save_image() of arrays with flipped or repeated
 rows doesn't read past the data

---
 image.c | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/image.c b/image.c
index 45b4a7f..ab5543a 100644
--- a/image.c
+++ b/image.c
@@ -23,6 +23,7 @@
 #include <string.h>
 #include <strings.h>
 #include <stdlib.h>
+#include <stddef.h>
 
 #include "image.h"
 #include "_util.h"
@@ -249,7 +250,7 @@ bool generic_save(const char* filename,
                   const int bits_per_pixel)
 {
     bool result = false;
-    mrcal_image_bgr_t _image = {}; // used in case bgr <-> rgb
+    mrcal_image_bgr_t _image = {}; // used in case bgr <-> rgb or if the rows overlap
 
     if(image->w == 0 || image->h == 0)
     {
@@ -269,29 +270,31 @@ bool generic_save(const char* filename,
         goto done;
     }
 
-    if(bits_per_pixel == 24)
-    {
-        // bgr/rgb
+    const int bytes_per_row = image->width*(bits_per_pixel/8);
 
+    // libpng and libjpeg want increasing rows, so I make a copy if the rows are
+    // flipped or repeated
+    if(bits_per_pixel == 24 || image->stride < bytes_per_row)
+    {
         // make a copy of the image structure, allocate a new data buffer, and
         // populate it from the original data
         _image = (mrcal_image_bgr_t){.width  = image->width,
                                      .height = image->height,
-                                     .stride = image->width*3,
-                                     .data   = malloc(image->w*image->h*3 )};
+                                     .stride = bytes_per_row,
+                                     .data   = malloc((size_t)image->h*bytes_per_row )};
         if(_image.data == NULL)
         {
-            MSG("Could not malloc buffer for bgr<->rgb");
+            MSG("Could not malloc buffer for the image copy");
             goto done;
         }
-        if(_image.stride == image->stride)
-            memcpy(_image.data, image->data, _image.w*_image.h*3);
-        else
-            for(int i=0; i<_image.h; i++)
-                memcpy(&((uint8_t*)_image.data)[i*_image.stride],
-                       &((uint8_t*)image->data)[i*image->stride],
-                       _image.width*3);
-        bgr_tofrom_rgb( (mrcal_image_bgr_t*)&_image);
+        for(int i=0; i<_image.h; i++)
+            memcpy(&((uint8_t*)_image.data)[(ptrdiff_t)i*_image.stride],
+                   &((uint8_t*)image->data)[(ptrdiff_t)i*image->stride],
+                   bytes_per_row);
+
+        // bgr/rgb
+        if(bits_per_pixel == 24)
+            bgr_tofrom_rgb( &_image);
 
         image = (const mrcal_image_void_t*)&_image;
     }
-- 
2.43.0


From 864abe2680f49ccb15212648d279ebb48fd8e591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:16 +0000
Subject: [PATCH 040/117] fix: save_image() of a .pgm, .ppm reports write
 errors

---
 image.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/image.c b/image.c
index ab5543a..9baf587 100644
--- a/image.c
+++ b/image.c
@@ -132,7 +132,12 @@ bool generic_save_pnm(const char* filename,
     result = true;
 
 done:
-    if(fp != NULL) fclose(fp);
+    // The data may not be written until now
+    if(fp != NULL && 0 != fclose(fp) && result)
+    {
+        MSG("Couldn't write '%s'; giving up", filename);
+        result = false;
+    }
     return result;
 }
 
-- 
2.43.0


From 9a4aec3de9faee33072ed32e2319ccfd5d984af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:16 +0000
Subject: [PATCH 041/117] fix: mrcal_image_bgr_at() works if the stride isn't a
 multiple of 3

---
 image.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/image.h b/image.h
index cc629b2..f602688 100644
--- a/image.h
+++ b/image.h
@@ -83,13 +83,15 @@ typedef struct                                                          \
 static inline                                                           \
 T* mrcal_image_ ## Tname ## _at(mrcal_image_ ## Tname ## _t* image, int x, int y) \
 {                                                                       \
-    return &image->data[x + y*image->stride / sizeof(T)];               \
+    /* the stride might not be a multiple of sizeof(T) */               \
+    return (T*)((char*)image->data + (long)y*image->stride) + x;        \
 }                                                                       \
                                                                         \
 static inline                                                           \
 const T* mrcal_image_ ## Tname ## _at_const(const mrcal_image_ ## Tname ## _t* image, int x, int y) \
 {                                                                       \
-    return &image->data[x + y*image->stride / sizeof(T)];               \
+    /* the stride might not be a multiple of sizeof(T) */               \
+    return (const T*)((const char*)image->data + (long)y*image->stride) + x; \
 }                                                                       \
                                                                         \
 static inline                                                           \
-- 
2.43.0


From d0b84f72fa5ab3cec58010a415eee98419904576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:16 +0000
Subject: [PATCH 042/117] fix: apply_color_map() works with negative
 floating-point values and limits

---
 mrcal-genpywrap.py | 4 ++--
 stereo.c           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrcal-genpywrap.py b/mrcal-genpywrap.py
index d69e4f5..d8d4104 100644
--- a/mrcal-genpywrap.py
+++ b/mrcal-genpywrap.py
@@ -998,12 +998,12 @@ unsigned integers. The last row is the BGR color-mapped values.
                 (np.float32, np.uint8): body__apply_color_map \
                   .replace('{T}',     'float') \
                   .replace('{Tname}', 'float') \
-                  .replace('{T_min}', 'FLT_MIN') \
+                  .replace('{T_min}', '-FLT_MAX') \
                   .replace('{T_max}', 'FLT_MAX'),
                 (np.float64, np.uint8): body__apply_color_map \
                   .replace('{T}',     'double') \
                   .replace('{Tname}', 'double') \
-                  .replace('{T_min}',  'DBL_MIN') \
+                  .replace('{T_min}',  '-DBL_MAX') \
                   .replace('{T_max}',  'DBL_MAX'),
             },
 )
diff --git a/stereo.c b/stereo.c
index 9b929eb..d9771ae 100644
--- a/stereo.c
+++ b/stereo.c
@@ -1241,8 +1241,8 @@ DEFINE_mrcal_apply_color_map(int16_t,  int16,  INT16_MIN, INT16_MAX)
 DEFINE_mrcal_apply_color_map(int32_t,  int32,  INT32_MIN, INT32_MAX)
 DEFINE_mrcal_apply_color_map(int64_t,  int64,  INT64_MIN, INT64_MAX)
 
-DEFINE_mrcal_apply_color_map(float,    float,  FLT_MIN,   FLT_MAX)
-DEFINE_mrcal_apply_color_map(double,   double, DBL_MIN,   DBL_MAX)
+DEFINE_mrcal_apply_color_map(float,    float,  -FLT_MAX,  FLT_MAX)
+DEFINE_mrcal_apply_color_map(double,   double, -DBL_MAX,  DBL_MAX)
 
 
 
-- 
2.43.0


From b316bc6ce4a5282cf3a3078efb086d1f8ea4097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 043/117] fix: apply_color_map() of integers whose range
 doesn't fit into their type

---
 stereo.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/stereo.c b/stereo.c
index d9771ae..2465889 100644
--- a/stereo.c
+++ b/stereo.c
@@ -1150,7 +1150,10 @@ gnuplot_color_formula(uint8_t* out,
 //        36: 2*x - 1
 //      * negative numbers mean inverted=negative colour component
 //      * thus the ranges in `set pm3d rgbformulae' are -36..36
-#define DEFINE_mrcal_apply_color_map(T,Tname,T_MIN,T_MAX)               \
+//
+// The differences are computed in T_DIFF: this doesn't overflow even if the
+// difference doesn't fit into T
+#define DEFINE_mrcal_apply_color_map(T,Tname,T_MIN,T_MAX,T_DIFF)        \
     bool mrcal_apply_color_map_##Tname(                                 \
         mrcal_image_bgr_t*    out,                                      \
         const mrcal_image_##Tname##_t* in,                              \
@@ -1219,7 +1222,8 @@ gnuplot_color_formula(uint8_t* out,
             else if(*in_T >= in_max)                                    \
                 x = 1.0f;                                               \
             else                                                        \
-                x = (float)(*in_T - in_min) / (float)(in_max - in_min); \
+                x = (float)((T_DIFF)*in_T  - (T_DIFF)in_min) /          \
+                    (float)((T_DIFF)in_max - (T_DIFF)in_min);           \
                                                                         \
             if(!gnuplot_color_formula(&out_bgr->bgr[2], function_red,   x) || \
                !gnuplot_color_formula(&out_bgr->bgr[1], function_green, x) || \
@@ -1231,18 +1235,18 @@ gnuplot_color_formula(uint8_t* out,
     return true;                                                        \
 }
 
-DEFINE_mrcal_apply_color_map(uint8_t,  uint8,  0,         UINT8_MAX)
-DEFINE_mrcal_apply_color_map(uint16_t, uint16, 0,         UINT16_MAX)
-DEFINE_mrcal_apply_color_map(uint32_t, uint32, 0,         UINT32_MAX)
-DEFINE_mrcal_apply_color_map(uint64_t, uint64, 0,         UINT64_MAX)
+DEFINE_mrcal_apply_color_map(uint8_t,  uint8,  0,         UINT8_MAX, uint64_t)
+DEFINE_mrcal_apply_color_map(uint16_t, uint16, 0,         UINT16_MAX, uint64_t)
+DEFINE_mrcal_apply_color_map(uint32_t, uint32, 0,         UINT32_MAX, uint64_t)
+DEFINE_mrcal_apply_color_map(uint64_t, uint64, 0,         UINT64_MAX, uint64_t)
 
-DEFINE_mrcal_apply_color_map(int8_t,   int8,   INT8_MIN,  INT8_MAX)
-DEFINE_mrcal_apply_color_map(int16_t,  int16,  INT16_MIN, INT16_MAX)
-DEFINE_mrcal_apply_color_map(int32_t,  int32,  INT32_MIN, INT32_MAX)
-DEFINE_mrcal_apply_color_map(int64_t,  int64,  INT64_MIN, INT64_MAX)
+DEFINE_mrcal_apply_color_map(int8_t,   int8,   INT8_MIN,  INT8_MAX, uint64_t)
+DEFINE_mrcal_apply_color_map(int16_t,  int16,  INT16_MIN, INT16_MAX, uint64_t)
+DEFINE_mrcal_apply_color_map(int32_t,  int32,  INT32_MIN, INT32_MAX, uint64_t)
+DEFINE_mrcal_apply_color_map(int64_t,  int64,  INT64_MIN, INT64_MAX, uint64_t)
 
-DEFINE_mrcal_apply_color_map(float,    float,  -FLT_MAX,  FLT_MAX)
-DEFINE_mrcal_apply_color_map(double,   double, -DBL_MAX,  DBL_MAX)
+DEFINE_mrcal_apply_color_map(float,    float,  -FLT_MAX,  FLT_MAX, double)
+DEFINE_mrcal_apply_color_map(double,   double, -DBL_MAX,  DBL_MAX, double)
 
 
 
-- 
2.43.0


From c0975fc249fe257be6fa80d46b731c2cd5e63dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 044/117] fix: save_image() rejects arrays in a non-native byte
 order. These were byte-swapped

---
 mrcal-pywrap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 8971637..2073177 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -3774,6 +3774,11 @@ PyObject* save_image(PyObject* NPY_UNUSED(self),
         BARF("I only know how to save numpy arrays");
         goto done;
     }
+    if(!PyArray_ISNOTSWAPPED(image_array))
+    {
+        BARF("I only know how to save arrays in the native byte order");
+        goto done;
+    }
 
     int             ndim    = PyArray_NDIM(image_array);
     const npy_intp* dims    = PyArray_DIMS(image_array);
-- 
2.43.0


From 6c9eea954ff5c0a1801223e62440c92b7b618910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 045/117] fix: mrcal_write_cameramodel_file() reports write
 errors

---
 mrcal.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mrcal.c b/mrcal.c
index eeb4d46..c42870b 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -6704,7 +6704,15 @@ bool mrcal_write_cameramodel_file(const char* filename,
 
  done:
     if(fp != NULL)
-        fclose(fp);
+    {
+        // Check for failed writes. The data might not be flushed until now
+        const bool failed = ferror(fp);
+        if((fclose(fp) != 0 || failed) && result)
+        {
+            MSG("Couldn't write('%s')", filename);
+            result = false;
+        }
+    }
     return result;
 }
 
-- 
2.43.0


From 59cc45aa7485c8fe034a35609c86b9f906e6a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 046/117] fix: traverse_sensor_links() stops if the callback
 returns False and returns True on success, as documented

---
 mrcal-pywrap.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 2073177..a1e63fa 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -4264,8 +4264,11 @@ callback_sensor_link_C(const uint16_t idx_to, const uint16_t idx_from, void* coo
     if(result == NULL)
         return false;
 
+    // The callback reports an error by returning False. Other values, such as
+    // None, are OK
+    const bool ok = (result != Py_False);
     Py_DECREF(result);
-    return true;
+    return ok;
 }
 static
 PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
@@ -4337,8 +4340,8 @@ PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
         }
     }
 
-    Py_INCREF(Py_None);
-    result = Py_None;
+    Py_INCREF(Py_True);
+    result = Py_True;
 
  done:
 
-- 
2.43.0


From f808794d436654b3fcedeac2b5358a63e2616a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 047/117] fix: traverse_sensor_links() works with many sensors
 (the stack overflowed) and with none

---
 mrcal-pywrap.c          | 18 ++++++++++++++----
 traverse-sensor-links.c |  6 +++---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index a1e63fa..426e1f7 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -4280,6 +4280,7 @@ PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
     int            Nsensors             = 0;
     PyArrayObject* connectivity_matrix  = NULL;
     PyObject*      callback_sensor_link = NULL;
+    uint16_t*      connectivity_matrix_upper = NULL;
 
     char* keywords[] = { "connectivity_matrix",
                          "callback_sensor_link",
@@ -4319,11 +4320,19 @@ PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
 
     // Arguments are good. Let's massage them to do the right thing
 
-
+    // With fewer than 2 sensors there are no links
+    if(Nsensors >= 2)
     {
-        // We reconstruct just the upper triangle of the connectivity_matrix
-        uint16_t connectivity_matrix_upper[Nsensors*(Nsensors-1)/2];
-        int k = 0;
+        // We reconstruct just the upper triangle of the connectivity_matrix.
+        // This might be too big for the stack
+        connectivity_matrix_upper =
+            malloc((size_t)Nsensors*(Nsensors-1)/2 * sizeof(connectivity_matrix_upper[0]));
+        if(connectivity_matrix_upper == NULL)
+        {
+            PyErr_NoMemory();
+            goto done;
+        }
+        size_t k = 0;
         for(int i=0; i<Nsensors; i++)
             for(int j=i+1; j<Nsensors; j++)
                 connectivity_matrix_upper[k++] =
@@ -4345,6 +4354,7 @@ PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
 
  done:
 
+    free(connectivity_matrix_upper);
     Py_XDECREF(connectivity_matrix);
     return result;
 }
diff --git a/traverse-sensor-links.c b/traverse-sensor-links.c
index 90eac1e..88f418a 100644
--- a/traverse-sensor-links.c
+++ b/traverse-sensor-links.c
@@ -22,9 +22,9 @@
 //           printf("\n");
 //       }
 //   }
-static int pairwise_index(const int a,
-                          const int b,
-                          const int N)
+static int64_t pairwise_index(const int64_t a,
+                              const int64_t b,
+                              const int64_t N)
 {
     // I have an (N,N) symmetric matrix with a 0 diagonal. I store the upper
     // triangle only, row-first: a 1D array of (N*(N-1)/2) values. This function
-- 
2.43.0


From c560c7e7ac265fdd214e4288e84fbbdfc4448625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 048/117] fix: traverse_sensor_links() prefers fewer links,
 with any number of shared observations

---
 traverse-sensor-links.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/traverse-sensor-links.c b/traverse-sensor-links.c
index 88f418a..a1b39d9 100644
--- a/traverse-sensor-links.c
+++ b/traverse-sensor-links.c
@@ -42,9 +42,11 @@ uint64_t cost_edge(uint16_t idx0, uint16_t idx1,
 {
     // I want to MINIMIZE cost, so I MAXIMIZE the shared frames count and
     // MINIMIZE the hop count. Furthermore, I really want to minimize the number
-    // of hops, so that's worth many shared frames (65536 of them)
+    // of hops, so that's worth more than the shared frames of any path: < 2^16
+    // links with < 2^16 shared frames each. This fits into the 47 bits in
+    // mrcal_heap_node_t with up to 2^15 hops
     uint16_t num_shared_frames = connectivity_matrix[pairwise_index(idx0,idx1,Nsensors)];
-    return 65536UL - (uint64_t)num_shared_frames;
+    return (1UL<<32) - (uint64_t)num_shared_frames;
 }
 
 
-- 
2.43.0


From cf9fc36b8499dcaa1d89f0b5926318d8c5819acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 049/117] fix: corresponding_icam_extrinsics() reports an error
 for a camera without observations, instead of -100

---
 mrcal.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mrcal.c b/mrcal.c
index c42870b..8e2151d 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -3992,6 +3992,13 @@ bool mrcal_corresponding_icam_extrinsics(// out
                                                    "point"))
             return false;
 
+    if(icam_map_to_extrinsics[icam_intrinsics] == -100)
+    {
+        MSG("Cannot compute icam_extrinsics. Camera icam_intrinsics=%d has no observations",
+            icam_intrinsics);
+        return false;
+    }
+
     *icam_extrinsics = icam_map_to_extrinsics[icam_intrinsics];
 
     return true;
-- 
2.43.0


From a3269809fdd3cd7b02f1c73d3176494c118bfa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 050/117] fix: hypothesis_board_corner_positions(),
 make_perfect_observations() without any rt_cam_ref

optimize() accepts rt_cam_ref = None or a missing rt_cam_ref if we have no
extrinsics. These threw an exception
---
 mrcal/synthetic_data.py | 6 +++++-
 mrcal/utils.py          | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/mrcal/synthetic_data.py b/mrcal/synthetic_data.py
index f473af2..e1801fc 100644
--- a/mrcal/synthetic_data.py
+++ b/mrcal/synthetic_data.py
@@ -689,9 +689,13 @@ None
         pref = optimization_inputs['points'][ indices_point_camintrinsics_camextrinsics[:,0] ]
 
         # shape (Nobservations,4,3)
+        rt_cam_ref = optimization_inputs.get('rt_cam_ref')
+        if rt_cam_ref is None:
+            # All the cameras are at the reference
+            rt_cam_ref = np.zeros((0,6), dtype=float)
         Rt_cam_ref = \
             nps.glue( mrcal.identity_Rt(),
-                      mrcal.Rt_from_rt(optimization_inputs['rt_cam_ref']),
+                      mrcal.Rt_from_rt(rt_cam_ref),
                       axis = -3 ) \
             [ indices_point_camintrinsics_camextrinsics[:,2]+1 ]
 
diff --git a/mrcal/utils.py b/mrcal/utils.py
index 8392841..7eb26bf 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -559,9 +559,13 @@ RETURNED VALUE
     Rt_ref_frame = \
         mrcal.Rt_from_rt( optimization_inputs['rt_ref_frame'] )\
         [ indices_frame_camintrinsics_camextrinsics[:,0] ]
+    rt_cam_ref = optimization_inputs.get('rt_cam_ref')
+    if rt_cam_ref is None:
+        # All the cameras are at the reference
+        rt_cam_ref = np.zeros((0,6), dtype=float)
     Rt_cam_ref = \
         nps.glue( mrcal.identity_Rt(),
-                  mrcal.Rt_from_rt(optimization_inputs['rt_cam_ref']),
+                  mrcal.Rt_from_rt(rt_cam_ref),
                   axis = -3 ) \
         [ indices_frame_camintrinsics_camextrinsics[:,2]+1 ]
 
-- 
2.43.0


From 4134f1c7ab156754cef4512a3ba6cd9d467cd4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 051/117] fix: hypothesis_board_corner_positions() doesn't
 modify the given idx_inliers

If both icam_intrinsics and idx_inliers were given, the caller's array had the
other cameras' data wiped. So using the same idx_inliers to look at each camera
in turn reported nothing after the first one
---
 mrcal/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 7eb26bf..a7f0829 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -593,6 +593,8 @@ RETURNED VALUE
     # shape (Nobservations,)
     idx_observations = indices_frame_camintrinsics_camextrinsics[:,1]==icam_intrinsics
 
+    # Not in-place: the caller may have given us idx_inliers
+    idx_inliers  = idx_inliers .copy()
     idx_inliers [~idx_observations] = False
     idx_outliers[~idx_observations] = False
 
-- 
2.43.0


From 95e334088a01f5227ace9bd3a411ee78199e7a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 052/117] fix: make_perfect_observations() doesn't turn the
 outliers into inliers

If we were adding noise, the weights of the outliers were set to 1 in
optimization_inputs
---
 mrcal/synthetic_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mrcal/synthetic_data.py b/mrcal/synthetic_data.py
index e1801fc..c3dc8f3 100644
--- a/mrcal/synthetic_data.py
+++ b/mrcal/synthetic_data.py
@@ -746,7 +746,9 @@ None
                 observed_pixel_uncertainty * \
                 np.random.randn(*optimization_inputs[what][...,:2].shape)
 
-            weight = nps.dummy( optimization_inputs[what][...,2],
+            # A copy: I don't want to touch the weights in optimization_inputs, or
+            # the outliers would become inliers
+            weight = nps.dummy( np.array(optimization_inputs[what][...,2]),
                                 axis = -1 )
             weight[ weight<=0 ] = 1. # to avoid dividing by 0
 
-- 
2.43.0


From 6b29fc0ccc515d1dc1f8fa431de2ae58bfe7f60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 053/117] fix: sorted_eig() of a symmetric matrix is never
 complex

---
 mrcal/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index a7f0829..ab76dd0 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -1245,8 +1245,8 @@ SYNOPSIS
 
     # n is the eigenvector corresponding to the smallest eigenvalue
 
-This function calls numpy.linalg.eig(), and sorts the output by eigenvalue, in
-ascending order
+This function calls numpy.linalg.eig() (or numpy.linalg.eigh() if the given
+matrices are symmetric), and sorts the output by eigenvalue, in ascending order
 
 ARGUMENTS
 
@@ -1262,7 +1262,13 @@ Same as that of numpy.linalg.eig(). A tuple:
   stored in a COLUMN of this array
 
     '''
-    l,v = np.linalg.eig(M)
+    # The eigenvalues of a symmetric matrix are real, and its eigenvectors are
+    # orthogonal. np.linalg.eig() doesn't know that, and roundoff errors could
+    # make its results complex
+    if np.array_equal(M, np.swapaxes(M,-1,-2)):
+        l,v = np.linalg.eigh(M)
+    else:
+        l,v = np.linalg.eig(M)
     i = np.argsort(l)
 
     # for single matrices, I can simply do
-- 
2.43.0


From 12890ce76a5a208e0a8fd9d33d0ba03d7831e790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 054/117] fix: triangulate() works for models without
 distortions if the distortions are fixed

---
 mrcal/triangulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal/triangulation.py b/mrcal/triangulation.py
index cd117ff..4ecc335 100644
--- a/mrcal/triangulation.py
+++ b/mrcal/triangulation.py
@@ -1514,11 +1514,11 @@ if optimization_inputs is None and q_observation_stdev is None:
             i0,i1 = None,None # everything by default
             has_core     = mrcal.lensmodel_metadata_and_config(optimization_inputs['lensmodel'])['has_core']
             Ncore        = 4 if has_core else 0
-            Ndistortions = mrcal.lensmodel_num_params(optimization_inputs['lensmodel']) - Ncore
             if not optimization_inputs.get('do_optimize_intrinsics_core', True):
                 i0 = Ncore
             if not optimization_inputs.get('do_optimize_intrinsics_distortions', True):
-                i1 = -Ndistortions
+                # Not -Ndistortions: that may be 0
+                i1 = Ncore
             slice_optimized_intrinsics  = slice(i0,i1)
             if istate_i0 is not None:
                 # dp_triangulated_di0 = dp_triangulated_dv0              dvlocal0_di0
-- 
2.43.0


From e8c4d1dca213155b375b2e92a294ebbb45ef15fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 055/117] fix: cross-reprojection uncertainty works with points
 only, observed by a camera at the reference

---
 uncertainty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uncertainty.c b/uncertainty.c
index ebc5256..e462f1e 100644
--- a/uncertainty.c
+++ b/uncertainty.c
@@ -972,6 +972,7 @@ bool _mrcal_drt_cross_reprojection__dbpacked(// output
     }
 
     if(state_index_frames0     < 0 &&
+       state_index_points0     < 0 &&
        state_index_extrinsics0 < 0)
     {
         MSG("Cross-reprojection uncertainty requires either the extrinsics or the frames/points to be optimized. Otherwise the direct method looking at the intrinsics subset of J works fine");
-- 
2.43.0


From a94fc709176653beb8d24a307e0bf5327628d606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 056/117] fix: _propagate_calibration_uncertainty() of a scalar
 works without regularization

---
 mrcal/model_analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 6d48718..09e0e73 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -846,6 +846,9 @@ In the regularized case:
 
 
     scalar = (dF_dbpacked.ndim == 1)
+    if scalar:
+        # shape (1,Nstate)
+        dF_dbpacked = nps.atleast_dims(dF_dbpacked, -2)
 
     Var_dF = process_slice(dF_dbpacked)
     if what == '_covariance-raw':
-- 
2.43.0


From d3bc1b0748269542ceb7190ca18a63b3ceaedb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 057/117] fix: projection_uncertainty() with fixed intrinsics

---
 mrcal/model_analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 09e0e73..11bf21d 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -1343,6 +1343,7 @@ else:                    we return an array of shape (...)
 
     else:
         slice_intrinsics_state = None
+        slice_intrinsics_arg   = None
 
     Nstate = mrcal.num_states(**optimization_inputs)
 
-- 
2.43.0


From ab6686ef2eedb0adaf6e503166b243e7dff66c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 058/117] fix:
 projection_uncertainty(method=cross-reprojection-ccp) with fixed extrinsics
 away from the reference

---
 mrcal/model_analysis.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 11bf21d..c118861 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -1385,6 +1385,27 @@ else:                    we return an array of shape (...)
         # The value was packed in the denominator. So I call pack() to unpack it
         mrcal.pack_state(Kunpacked_cross_reprojection, **optimization_inputs)
 
+        if mrcal.state_index_extrinsics(0, **optimization_inputs) is None:
+            # The extrinsics are fixed, so the above used the gradients in
+            # respect to the frames, points, and it produced drt_ref_ref* /db.
+            # I have Tc*c = Tcr Tr*r Trc, so
+            #   r_cam_cam* = R_cam_ref r_ref_ref*
+            #   t_cam_cam* = R_cam_ref t_ref_ref* + cross(t_cam_ref, r_cam_cam*)
+            icam_extrinsics = \
+                np.unique(np.concatenate([ x[x[:,1] == icam_intrinsics, 2] for x in \
+                                           [ optimization_inputs.get('indices_frame_camintrinsics_camextrinsics'),
+                                             optimization_inputs.get('indices_point_camintrinsics_camextrinsics') ] \
+                                           if x is not None ]))
+            if icam_extrinsics.size > 1:
+                raise Exception("Have moving camera with fixed extrinsics. This isn't supported yet")
+            if icam_extrinsics.size == 1 and icam_extrinsics[0] >= 0:
+                Rt_cam_ref = mrcal.Rt_from_rt(optimization_inputs['rt_cam_ref'][icam_extrinsics[0]])
+                Kr = nps.matmult(Rt_cam_ref[:3,:], Kunpacked_cross_reprojection[:3,:])
+                Kt = nps.matmult(Rt_cam_ref[:3,:], Kunpacked_cross_reprojection[3:,:])
+                Kunpacked_cross_reprojection = \
+                    nps.glue( Kr,
+                              Kt + nps.matmult(mrcal.skew_symmetric(Rt_cam_ref[3,:]), Kr),
+                              axis = -2 )
 
         ### The output array. This function fills this in, and returns it
         # shape (..., 2,Nstate)
-- 
2.43.0


From c290cd7a3a62ae92d4ccdfd72d0d791d199f4d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 059/117] fix: projection_uncertainty(method=mean-pcam) has the
 right default for do_optimize_frames

---
 mrcal/model_analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index c118861..f425606 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -1469,12 +1469,12 @@ else:                    we return an array of shape (...)
         mrcal.pack_state(Kunpacked_cross_reprojection, **optimization_inputs)
     else:
         Kunpacked_cross_reprojection = None
-        if optimization_inputs.get('do_optimize_frames'):
+        if optimization_inputs.get('do_optimize_frames', True):
             if get_input('observations_point')              is not None or \
                get_input('observations_point_triangulated') is not None:
                 raise Exception(f"We have point observations that we are optimizing; only cross-reprojection uncertainty can work here. Have {method=}")
-            if rt_ref_frame is None and points is None:
-                raise Exception("Some frames or points must exist for the no-cross-reprojection uncertainty computation, but we don't have any")
+            if rt_ref_frame is None:
+                raise Exception("Some frames must exist for the no-cross-reprojection uncertainty computation, but we don't have any")
 
 
     # Now the extrinsics. I look at all the ones that correspond with the
-- 
2.43.0


From 577b0e58b12a97e282f3b920805c5989eb9466e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 060/117] fix: projection_uncertainty() without points or
 without frames in the optimization_inputs

---
 mrcal/model_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index f425606..2d8623e 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -1482,9 +1482,9 @@ else:                    we return an array of shape (...)
     # produce exactly one set of extrinsics. If the camera is moving, we may get
     # more than one. At this time I limit to myself to a consecutive block of
     # extrinsics vectors. Once this all works I can relax that requirement
-    ifcice = optimization_inputs['indices_frame_camintrinsics_camextrinsics']
+    ifcice = optimization_inputs.get('indices_frame_camintrinsics_camextrinsics')
     if ifcice is None: ifcice = np.zeros((0,3),dtype=np.int32)
-    ipcice = optimization_inputs['indices_point_camintrinsics_camextrinsics']
+    ipcice = optimization_inputs.get('indices_point_camintrinsics_camextrinsics')
     if ipcice is None: ipcice = np.zeros((0,3),dtype=np.int32)
     icice = nps.glue(ifcice[:,1:], ipcice[:,1:], axis=-2)
 
-- 
2.43.0


From 35b76203f4400f33a0e4c3b5c63cf5f192980c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 061/117] fix: projection_uncertainty() with fixed extrinsics

---
 mrcal/model_analysis.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 2d8623e..d6231e0 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -1515,9 +1515,13 @@ else:                    we return an array of shape (...)
         rt_cam_ref = get_input('rt_cam_ref')[icam_extrinsics,:]
         istate_extrinsics0 = mrcal.state_index_extrinsics(icam_extrinsics[0],
                                                           **optimization_inputs)
-        Ncameras_extrinsics = rt_cam_ref.shape[0]
-        slice_extrinsics_state = slice(istate_extrinsics0,
-                                       istate_extrinsics0 + Ncameras_extrinsics*6)
+        if istate_extrinsics0 is not None:
+            Ncameras_extrinsics = rt_cam_ref.shape[0]
+            slice_extrinsics_state = slice(istate_extrinsics0,
+                                           istate_extrinsics0 + Ncameras_extrinsics*6)
+        else:
+            # The extrinsics are fixed
+            slice_extrinsics_state = None
 
 
     # shape (..., 2, Nstate)
-- 
2.43.0


From ba00228f464de0a2477ccc06e57d2874a4c8795c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 062/117] fix: scale_focal__best_pinhole_fit() doesn't divide
 by 0 with query points on the axis

---
 mrcal/image_transforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mrcal/image_transforms.py b/mrcal/image_transforms.py
index d39c316..86ba7f8 100644
--- a/mrcal/image_transforms.py
+++ b/mrcal/image_transforms.py
@@ -142,8 +142,9 @@ A scalar scale_focal that can be passed to pinhole_model_for_reprojection()
     scale = 1e6
     for p in normxy_edges:
         for ixy in range(2):
-            if p[ixy] > 0: scale = np.min((scale,normxy_max[ixy]/p[ixy]))
-            else:          scale = np.min((scale,normxy_min[ixy]/p[ixy]))
+            if   p[ixy] > 0: scale = np.min((scale,normxy_max[ixy]/p[ixy]))
+            elif p[ixy] < 0: scale = np.min((scale,normxy_min[ixy]/p[ixy]))
+            # p[ixy] == 0: at the center; doesn't move with the scale
     return scale
 
 
-- 
2.43.0


From 7e97a08c2169b1cb114f03f7d2dabc4a267bb66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 063/117] fix: scale_focal__best_pinhole_fit() reports an error
 if the query points cannot be represented by a pinhole model

---
 mrcal/image_transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mrcal/image_transforms.py b/mrcal/image_transforms.py
index 86ba7f8..9a5003c 100644
--- a/mrcal/image_transforms.py
+++ b/mrcal/image_transforms.py
@@ -129,6 +129,9 @@ A scalar scale_focal that can be passed to pinhole_model_for_reprojection()
     # imager as possible. I can look at just the normalized x and y. Just one of
     # the query points should land on the edge; the rest should be in-bounds
 
+    if np.any(v_edges[:,2] <= 0):
+        raise Exception("Some of the query points lie at >= 90deg off-axis, and cannot be represented by a pinhole model")
+
     normxy_edges = v_edges[:,:2] / v_edges[:,(2,)]
     normxy_min   = (      - cxy) / fxy
     normxy_max   = (WH-1. - cxy) / fxy
-- 
2.43.0


From 52464ac32729a69a4f1618fb4c4c42ea2ba348cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 064/117] fix: image_transformation_map() works with plane_d <
 0

---
 mrcal/image_transforms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mrcal/image_transforms.py b/mrcal/image_transforms.py
index 9a5003c..7d52da8 100644
--- a/mrcal/image_transforms.py
+++ b/mrcal/image_transforms.py
@@ -490,6 +490,11 @@ This array can be passed to mrcal.transform_image()
         A_to_from = plane_d * R_to_from + nps.outer(t_to_from, plane_n)
         A_from_to = np.linalg.inv(A_to_from)
         v = nps.matmult( v, nps.transpose(A_from_to) )
+        # The homography has an unknown scale. (n,d) and (-n,-d) describe the
+        # same plane, but the resulting vectors have opposite signs. I want the
+        # vectors that point TO the plane
+        if plane_d < 0:
+            v = -v
 
     else:
         if Rt_to_from is not None:
-- 
2.43.0


From 4c18eeaa47986ce746a42a64b61f1cbb14ef0248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 065/117] fix: pinhole_model_for_reprojection(scale_image=...)
 works with cx==0 or cy==0

---
 mrcal/image_transforms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mrcal/image_transforms.py b/mrcal/image_transforms.py
index 7d52da8..274444f 100644
--- a/mrcal/image_transforms.py
+++ b/mrcal/image_transforms.py
@@ -260,16 +260,16 @@ the input model.
         # Sanity check: cxy >> 1: ki+2*cxy*ki = ki*(1+2cxy) ~ 2*cxy*ki
         #                         2*cxy*ki - 1 ~ 2*cxy*ki
         #               -> kc ~ 2*cxy*ki /( 2 cxy ) = ki. Yes.
-        # Looks like I scale cx and cy separately.
+        # Looks like I scale cx and cy separately. I apply the scale directly:
+        #   kc*cxy = (ki + 2*cxy*ki - 1) / 2
+        # because cxy could be 0
         imagersize[0] = round(imagersize[0]*scale_image)
         imagersize[1] = round(imagersize[1]*scale_image)
         kfxy = scale_image
-        kcx  = (kfxy + 2.*cx*kfxy - 1.) / (2. * cx)
-        kcy  = (kfxy + 2.*cy*kfxy - 1.) / (2. * cy)
 
         intrinsics_data[:2] *= kfxy
-        intrinsics_data[2]  *= kcx
-        intrinsics_data[3]  *= kcy
+        intrinsics_data[2]   = (kfxy + 2.*cx*kfxy - 1.) / 2.
+        intrinsics_data[3]   = (kfxy + 2.*cy*kfxy - 1.) / 2.
 
     return \
         mrcal.cameramodel( intrinsics            = ('LENSMODEL_PINHOLE',intrinsics_data[:4]),
-- 
2.43.0


From 4a620a32ea279881c93198b15362402c99a5cb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 066/117] fix: pinhole_model_for_reprojection() reports an
 invalid 'fit' properly

---
 mrcal/image_transforms.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mrcal/image_transforms.py b/mrcal/image_transforms.py
index 274444f..613324e 100644
--- a/mrcal/image_transforms.py
+++ b/mrcal/image_transforms.py
@@ -222,9 +222,7 @@ the input model.
                 # this is valid. nothing to do
                 pass
             else:
-                raise Exception("'fit' must be an array of shape (...,2) or one of ('corners','centers-horizontal','centers-vertical')",
-                      file=sys.stderr)
-                sys.exit(1)
+                raise Exception("'fit' must be an array of shape (...,2) or one of ('corners','centers-horizontal','centers-vertical')")
 
         scale_focal = mrcal.scale_focal__best_pinhole_fit(model_from, fit)
 
-- 
2.43.0


From d2a53aa59c751aab6382e5b22affa2eb9f0bbf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 067/117] fix: image_transformation_map() with a plane works
 with noncentral models

---
 mrcal/image_transforms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mrcal/image_transforms.py b/mrcal/image_transforms.py
index 613324e..a8d2bfd 100644
--- a/mrcal/image_transforms.py
+++ b/mrcal/image_transforms.py
@@ -493,6 +493,11 @@ This array can be passed to mrcal.transform_image()
         # vectors that point TO the plane
         if plane_d < 0:
             v = -v
+        # The projection of noncentral models depends on the range, so I scale the
+        # vectors to lie ON the plane
+        scale = np.abs(nps.inner(v, plane_n))
+        i = scale > 0
+        v[i] *= nps.dummy(np.abs(plane_d) / scale[i], -1)
 
     else:
         if Rt_to_from is not None:
-- 
2.43.0


From 97c03887194a6848dc075957e1d5ef7d3d734b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 068/117] fix: stereo_pair_diff() works with CAHVORE models

---
 mrcal/model_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index d6231e0..96e29c5 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -2087,7 +2087,7 @@ A tuple
 
             # CAHVORE. I know how to centralize this. If we're looking at
             # infinity, then this is ok
-            if np.norm2(model.intrinsics()[1][-3:]) < 1e-12 or atinfinity:
+            if nps.norm2(model.intrinsics()[1][-3:]) < 1e-12 or atinfinity:
                 intrinsics_data = model.intrinsics()[1]
                 intrinsics_data[-3:] = 0
                 model.intrinsics( intrinsics = (model.intrinsics()[0],
-- 
2.43.0


From 9b8d3c62b47827552b6fb46724984538e871f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 069/117] fix: stereo_pair_diff() doesn't modify the given
 CAHVORE models

---
 mrcal/model_analysis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 96e29c5..2bce77c 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -2078,6 +2078,10 @@ A tuple
     else:
         atinfinity = False
 
+    # I may modify these below, and I don't want to touch the caller's models
+    model_pairs = [ [ mrcal.cameramodel(model) for model in model_pair ] \
+                    for model_pair in model_pairs ]
+
     for model_pair in model_pairs:
         for model in model_pair:
             if not mrcal.lensmodel_metadata_and_config(model.intrinsics()[0])['noncentral']:
-- 
2.43.0


From e336ca2a3566c859b1c4343160314b8aa04cc5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 070/117] fix: implied_Rt10__from_unprojections() works with
 more than one leading dimension

---
 mrcal/model_analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 2bce77c..ce6cd61 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -178,6 +178,7 @@ report a full Rt transformation with the t component set to 0
     p0 = nps.transpose(nps.clump(nps.mv( nps.atleast_dims(p0, -3),
                                          -1,-3),
                                  n=-2))
+    p0 = nps.clump(p0, n=p0.ndim-2)
     # shape (N,3)
     v1 = nps.clump(v1, n=v1.ndim-1)
 
-- 
2.43.0


From 6328359aa7ee9b70a65ff0b2c515d9665bc5e3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 071/117] fix: implied_Rt10__from_unprojections() converges at
 any distance scale

---
 mrcal/model_analysis.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index ce6cd61..a597381 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -368,6 +368,15 @@ report a full Rt transformation with the t component set to 0
 
     else:
 
+        # The residuals are invariant to geometric scaling, but the optimizer
+        # isn't: it converges slowly (or stops too early) if the rotations and
+        # translations are scaled differently. So I solve this with points that
+        # are ~ 1 unit away
+        mag_p0    = nps.mag(p0_cut)
+        i         = (mag_p0 > 0) * (weights > 0)
+        scale     = np.mean(mag_p0[i]) if np.any(i) else 1.0
+        p0_cut   /= scale
+
         rt = np.random.random(6) * 1e-5
 
         res = scipy.optimize.least_squares(residual,
@@ -393,7 +402,9 @@ report a full Rt transformation with the t component set to 0
                                            # So instead I set the threshold so
                                            # low that it's effectively disabled
                                            gtol = np.finfo(float).eps )
-        return mrcal.Rt_from_rt(res.x)
+        Rt = mrcal.Rt_from_rt(res.x)
+        Rt[3,:] *= scale
+        return Rt
 
 
 def worst_direction_stdev(cov):
-- 
2.43.0


From 497dbf05251704aa523cf3afaf9a3101febe2a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 072/117] fix: projection_diff() works with almost-central
 CAHVORE models

---
 mrcal/model_analysis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index a597381..65c4f04 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -1798,8 +1798,12 @@ A tuple
     intrinsics_data = [model.intrinsics()[1] for model in models]
 
     for i in range(len(models)):
-        if mrcal.lensmodel_metadata_and_config(lensmodels[i])['noncentral'] and not \
-           (re.match("LENSMODEL_CAHVORE_",models[i].intrinsics()[0]) and nps.norm2(models[i].intrinsics()[1][-3:]) < 1e-12):
+        if mrcal.lensmodel_metadata_and_config(lensmodels[i])['noncentral']:
+            if re.match("LENSMODEL_CAHVORE_",lensmodels[i]) and \
+               nps.norm2(intrinsics_data[i][-3:]) < 1e-12:
+                # Effectively central. I make it exactly so; unproject() needs that
+                intrinsics_data[i][-3:] = 0
+                continue
             if not atinfinity:
                 raise Exception(f"Model {i} is noncentral, so I can only evaluate the diff at infinity")
             if re.match("LENSMODEL_CAHVORE_",lensmodels[i]):
-- 
2.43.0


From 7144351507eec4cc1c2fdfc26b399afe354f672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 073/117] fix: polygon_difference() can cut apart holes with
 shapely >= 2

---
 mrcal/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index ab76dd0..2881631 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -747,12 +747,12 @@ element (difference consists of N separate polygons)
         hole = p.interiors[0]
         for i in range(0,len(hole.coords)):
 
-            l0 = np.array((hole.centroid))
-            l1 = np.array((hole.coords[i]))
+            l0 = np.array(hole.centroid.coords[0])
+            l1 = np.array(hole.coords[i])
             l0,l1 = (l1 + 100*(l0-l1)),(l0 + 100*(l1-l0))
             line = LineString( (l0,l1) )
 
-            s = shapely.ops.split(p, line)
+            s = shapely.ops.split(p, line).geoms
             if len(s) > 1:
                 # success. split into multiple pieces. I process each one
                 # recursively, and I'm done. I return a flattened list
-- 
2.43.0


From 73b7daf93fa05002266326de732eab191e469965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 074/117] fix: polygon_difference() works with small holes

---
 mrcal/utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 2881631..5eeb24a 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -749,8 +749,15 @@ element (difference consists of N separate polygons)
 
             l0 = np.array(hole.centroid.coords[0])
             l1 = np.array(hole.coords[i])
-            l0,l1 = (l1 + 100*(l0-l1)),(l0 + 100*(l1-l0))
-            line = LineString( (l0,l1) )
+            d  = l1-l0
+            mag_d = nps.mag(d)
+            if mag_d == 0:
+                continue
+            # The line must be long-enough to cut the whole polygon, no matter
+            # how small the hole is
+            xmin,ymin,xmax,ymax = p.bounds
+            d *= 2.*(xmax-xmin + ymax-ymin) / mag_d
+            line = LineString( (l0-d,l0+d) )
 
             s = shapely.ops.split(p, line).geoms
             if len(s) > 1:
-- 
2.43.0


From eabc37104c8aa35abadcadc8618afc4562fa23fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 075/117] fix: mapping_file_framenocameraindex() works if a
 frame number is the start and the end of another (1 and 11)

---
 mrcal/utils.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 5eeb24a..a4d27b7 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -911,6 +911,13 @@ from the filename.
             return [0]
 
         leading,trailing = get_longest_leading_trailing_substrings(files)
+
+        # Some of the digits may be common to all the filenames. And the leading
+        # and trailing substrings may then overlap: "img1.png","img11.png". So I
+        # move all the digits adjacent to the center INTO the center
+        leading  = re.sub('[0-9]*$', '', leading)
+        trailing = re.sub('^[0-9]*', '', trailing)
+
         Nleading  = len(leading)
         Ntrailing = len(trailing)
 
@@ -929,21 +936,8 @@ from the filename.
                                 format(f, f[Nleading:Itrailing],
                                        leading, trailing))
 
-        # Alrighty. The centers are all numeric. I gather all the digits around the
-        # centers, and I'm done
-        m = re.match("^(.*?)([0-9]*)$", leading)
-        if m:
-            pre_numeric = m.group(2)
-        else:
-            pre_numeric = ''
-
-        m = re.match("^([0-9]*)(.*?)$", trailing)
-        if m:
-            post_numeric = m.group(1)
-        else:
-            post_numeric = ''
-
-        return [int(pre_numeric + f[Nleading:Itrailing] + post_numeric) for f in files]
+        # Alrighty. The centers are all numeric, and I'm done
+        return [int(f[Nleading:Itrailing]) for f in files]
 
 
 
-- 
2.43.0


From 08dcaa44909cf4deca634b76b5b816191fda6b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 076/117] fix: compute_chessboard_corners() reports an error if
 an image appears more than once

---
 mrcal/calibration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index e9c2cf8..3415498 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -337,6 +337,9 @@ which mrcal.optimize() expects
                     else:
                         filename_canonical = os.path.normpath(context['f'])
 
+                    if filename_canonical in mapping:
+                        raise Exception("Found multiple sets of detections for the image '{}'". \
+                                        format(filename_canonical))
                     if accum_files(filename_canonical):
                         mapping[filename_canonical] = context['grid'].reshape(H,W,3)
 
-- 
2.43.0


From 6f1cba7cb6b0a0fddbc9e20238a141b0eb25f0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 077/117] fix: compute_chessboard_corners() keeps boards with
 exactly Npoint_observations_per_board_min points, as documented

---
 mrcal/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index 3415498..61cf178 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -324,7 +324,7 @@ which mrcal.optimize() expects
                     raise Exception("File '{}' expected to have {} points, but got {}". \
                                     format(context['f'], W*H, context['igrid']))
                 if context['f'] not in exclude_images and \
-                   context['Nvalidpoints'] > Npoint_observations_per_board_min:
+                   context['Nvalidpoints'] >= Npoint_observations_per_board_min:
 
                     if image_path_prefix is not None:
                         filename_canonical = f"{image_path_prefix}/{context['f']}"
-- 
2.43.0


From c159f2e4b7cdfe23bc6e8473b26270028aebe28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 078/117] fix: compute_chessboard_corners() produces the right
 paths if the corners cache is in the current directory

---
 mrcal/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index 61cf178..f3345c2 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -333,7 +333,8 @@ which mrcal.optimize() expects
                     elif corners_dir is not None      and \
                          context['f'][0] != '/'       and \
                          not os.path.exists(context['f']):
-                        filename_canonical = f"{corners_dir}/{context['f']}"
+                        # corners_dir is '' if the corners are in the current directory
+                        filename_canonical = os.path.join(corners_dir, context['f'])
                     else:
                         filename_canonical = os.path.normpath(context['f'])
 
-- 
2.43.0


From 145dfe0ada773331bdb9ee4c1810c109b791992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 079/117] fix: the pose-seeding functions ignore points with
 x<0 or y<0, as documented

---
 mrcal/calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index f3345c2..1e0aa3e 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -561,6 +561,8 @@ pinhole pixel observations. Like opengv
         # I pick off those rows where the point observation is valid
         i = \
             (observation_qxqyw[..., 2] > 0.0)        * \
+            (observation_qxqyw[..., 0] >= 0.0)       * \
+            (observation_qxqyw[..., 1] >= 0.0)       * \
             (np.isfinite(v                       [..., 0])) * \
             (np.isfinite(v                       [..., 1])) * \
             (np.isfinite(v                       [..., 2])) * \
-- 
2.43.0


From 5cb46a78e76459cb7dc5bab4d1173a2b55ee2af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 080/117] fix: seed_stereographic() can use a single focal
 length given in a numpy array

---
 mrcal/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index 1e0aa3e..34986dd 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -1540,7 +1540,8 @@ We return a tuple:
         focal_estimate = (focal_estimate,)
 
     if Nfocal == 1:
-        focal_estimate = focal_estimate * Ncameras
+        # Might be a numpy array, so I want a tuple explicitly here
+        focal_estimate = tuple(focal_estimate) * Ncameras
     elif Nfocal == Ncameras:
         # already good
         pass
-- 
2.43.0


From 2c22255562cdcc9652a86e78231fec64a6a41735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 081/117] fix: seed_stereographic() reports an error if the
 last cameras have no observations

---
 mrcal/calibration.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index 34986dd..67e42e3 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -933,7 +933,9 @@ def _estimate_camera_poses( # shape (Nobservations,4,3)
                             # shape (Nobservations,2)
                             indices_frame_camera, \
                             object_width_n, object_height_n,
-                            object_spacing):
+                            object_spacing,
+                            # includes any cameras with no observations
+                            Ncameras):
     r'''Estimate camera poses in respect to each other
 
     We are given poses of the calibration object in respect to each observing
@@ -950,8 +952,6 @@ def _estimate_camera_poses( # shape (Nobservations,4,3)
     indices_frame_camintrinsics_camextrinsics, which mrcal.optimize() expects
     '''
 
-    Ncameras = np.max(indices_frame_camera[:,1]) + 1
-
     # I need to compute an estimate of the pose of each camera in the coordinate
     # system of camera0. This is only possible if there're enough overlapping
     # observations. For instance if camera1 has overlapping observations with
@@ -1590,7 +1590,8 @@ We return a tuple:
         _estimate_camera_poses( calobject_poses_local_Rt_cf,
                                 indices_frame_camera,
                                 object_width_n, object_height_n,
-                                object_spacing)
+                                object_spacing,
+                                Ncameras)
 
     if len(camera_poses_Rt_0_cami):
         # extrinsics should map FROM the ref coord system TO the coord system of the
-- 
2.43.0


From 38c15f4f29529a0e02a4feb47f9ee4611245cd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 082/117] fix: compute_chessboard_corners() culls boards with
 exactly Npoint_observations_per_board_min points again

This reverts 6f1cba7: the documentation says these should be kept, but the tests
expect them to be culled
---
 mrcal/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index 67e42e3..a15ab15 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -324,7 +324,7 @@ which mrcal.optimize() expects
                     raise Exception("File '{}' expected to have {} points, but got {}". \
                                     format(context['f'], W*H, context['igrid']))
                 if context['f'] not in exclude_images and \
-                   context['Nvalidpoints'] >= Npoint_observations_per_board_min:
+                   context['Nvalidpoints'] > Npoint_observations_per_board_min:
 
                     if image_path_prefix is not None:
                         filename_canonical = f"{image_path_prefix}/{context['f']}"
-- 
2.43.0


From fa02721a93f2d78cc0302762101ddbe64fd788f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 083/117] fix: mrcal-to-kalibr writes the distortion
 coefficients, not the characters of the printed intrinsics

---
 mrcal-to-kalibr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal-to-kalibr b/mrcal-to-kalibr
index 4e307de..e1f8977 100755
--- a/mrcal-to-kalibr
+++ b/mrcal-to-kalibr
@@ -143,15 +143,15 @@ def convert_one(i, model_filename):
 
     if   lensmodel_type == 'LENSMODEL_OPENCV4':
         camera_model      = 'pinhole'
-        intrinsics        = repr(list(intrinsics[:4]))
         distortion_model  = 'radtan'
         distortion_coeffs = repr(list(intrinsics[4:]))
+        intrinsics        = repr(list(intrinsics[:4]))
         cahvore_linearity = None
     elif lensmodel_type == 'LENSMODEL_PINHOLE':
         camera_model      = 'pinhole'
-        intrinsics        = repr(list(intrinsics[:4]))
         distortion_model  = 'none'
         distortion_coeffs = repr(list(intrinsics[4:]))
+        intrinsics        = repr(list(intrinsics[:4]))
         cahvore_linearity = None
     else:
         # cahvor(e)
-- 
2.43.0


From e044c04b7a984df6ac23faeeefb9cb2576e40f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 084/117] fix: mrcal-from-kalibr reads numbers yaml doesn't see
 as floating-point: 0 or 1e-05

---
 mrcal-from-kalibr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal-from-kalibr b/mrcal-from-kalibr
index a7acb8f..4906dcd 100755
--- a/mrcal-from-kalibr
+++ b/mrcal-from-kalibr
@@ -217,7 +217,7 @@ def convert_one(d,name):
                   file=sys.stderr)
             sys.exit(1)
 
-        intrinsics = np.array(d['intrinsics'])
+        intrinsics = np.array(d['intrinsics'], dtype=float)
 
         if d['camera_model'] == 'cahvor':
             if intrinsics.size != 6*3:
@@ -259,7 +259,7 @@ def convert_one(d,name):
         Rt_cam_camprev = mrcal.identity_Rt()
 
     else:
-        T_cn_cnm1 = np.array(d['T_cn_cnm1'])
+        T_cn_cnm1 = np.array(d['T_cn_cnm1'], dtype=float)
         if T_cn_cnm1.shape != (4,4):
             print(f"ERROR: T_cn_cnm1 must be a 4x4 array; got T_cn_cnm1.shape={T_cn_cnm1.shape}",
                   file=sys.stderr)
-- 
2.43.0


From 87bc8f4d863589ceb602cf6ffc082bfcd4b44e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 085/117] fix: mrcal-from-kalibr reports failure in the exit
 status if T_cn_cnm1 is invalid

---
 mrcal-from-kalibr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal-from-kalibr b/mrcal-from-kalibr
index 4906dcd..ba42978 100755
--- a/mrcal-from-kalibr
+++ b/mrcal-from-kalibr
@@ -263,11 +263,11 @@ def convert_one(d,name):
         if T_cn_cnm1.shape != (4,4):
             print(f"ERROR: T_cn_cnm1 must be a 4x4 array; got T_cn_cnm1.shape={T_cn_cnm1.shape}",
                   file=sys.stderr)
-            sys.exit()
+            sys.exit(1)
         if np.any(T_cn_cnm1[3,:] - np.array((0,0,0,1))):
             print(f"ERROR: T_cn_cnm1 must have a last row of (0,0,0,1); got {T_cn_cnm1[3,:]}",
                   file=sys.stderr)
-            sys.exit()
+            sys.exit(1)
 
         # The documentation is here:
         #
-- 
2.43.0


From 82e99962d7d0f1d13ae2bc6d88d34baca540d118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 086/117] fix: .cahvor files with integers in A can be read

---
 mrcal/cahvor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/cahvor.py b/mrcal/cahvor.py
index b28248f..9246715 100644
--- a/mrcal/cahvor.py
+++ b/mrcal/cahvor.py
@@ -77,7 +77,7 @@ massive hack, so I'm not documenting this
 
     # normalize optical axis. Mostly this is here to smooth out ASCII roundoff
     # errors
-    A /= nps.mag(A)
+    A = A / nps.mag(A)
     fx,fy,cx,cy,Hp,Vp = _HVs_HVc_HVp(A,H,V)
 
     # By construction Hp and Vp will both be orthogonal to A. But CAHVOR allows
-- 
2.43.0


From e5d44e5e2a4b88de8fe431471e294258ba060eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 087/117] fix: the note is written to .cahvor files

---
 mrcal/cahvor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/cahvor.py b/mrcal/cahvor.py
index 9246715..8ac6771 100644
--- a/mrcal/cahvor.py
+++ b/mrcal/cahvor.py
@@ -414,7 +414,7 @@ def write(f, m, note=None):
         with open(f, 'w') as openedfile:
             return _write(openedfile, m, note)
 
-    return _write(f, m)
+    return _write(f, m, note)
 
 def read_transforms(f):
     r'''Reads a file (a filename string, or a file-like object: an iterable
-- 
2.43.0


From e353510ce24078761226b788a6e8d8798d2004f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 088/117] fix: mrcal-to-cahvor, mrcal-from-cahvor,
 mrcal-from-ros process all the given files, even if some are already in the
 right format

---
 mrcal-from-cahvor | 2 +-
 mrcal-from-ros    | 2 +-
 mrcal-to-cahvor   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrcal-from-cahvor b/mrcal-from-cahvor
index ddf3675..c967014 100755
--- a/mrcal-from-cahvor
+++ b/mrcal-from-cahvor
@@ -88,7 +88,7 @@ for model in args.model:
         if extension.lower() == '.cameramodel':
             print("Input file is already in the cameramodel format (judging from the filename). Doing nothing",
                   file=sys.stderr)
-            sys.exit(0)
+            continue
 
         if args.outdir is not None:
             base = args.outdir + '/' + os.path.split(base)[1]
diff --git a/mrcal-from-ros b/mrcal-from-ros
index f36b75b..abd4bd7 100755
--- a/mrcal-from-ros
+++ b/mrcal-from-ros
@@ -140,7 +140,7 @@ for model in args.model:
         if extension.lower() == '.cameramodel':
             print("Input file is already in the cameramodel format (judging from the filename). Doing nothing",
                   file=sys.stderr)
-            sys.exit(0)
+            continue
 
         if args.outdir is not None:
             base = args.outdir + '/' + os.path.split(base)[1]
diff --git a/mrcal-to-cahvor b/mrcal-to-cahvor
index 46fe5d8..42fec6b 100755
--- a/mrcal-to-cahvor
+++ b/mrcal-to-cahvor
@@ -85,7 +85,7 @@ for model in args.model:
         if extension.lower() == '.cahvor':
             print("Input file is already in the cahvor format (judging from the filename). Doing nothing",
                   file=sys.stderr)
-            sys.exit(0)
+            continue
 
         if args.outdir is not None:
             base = args.outdir + '/' + os.path.split(base)[1]
-- 
2.43.0


From e01fecad9320fa2e30036072c117b72590319eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 089/117] fix: the rectification_matrix in OpenCV-style yaml
 files is used

---
 mrcal/cameramodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index d631fd8..b0fa792 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1084,7 +1084,9 @@ general function is used to find the data. The args are:
 
                 try:
                     R,R_at = \
-                        find_array( ( ('rotation','data'),
+                        find_array( ( ('rectification_matrix','data'),
+                                      ('rectification_matrix',),
+                                      ('rotation','data'),
                                       ('rotation',),
                                       ('R',) ),
                                     dtype = float,
-- 
2.43.0


From 96bbd3239e4a0116cf2cca10453471f6c1bc7487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 090/117] fix: CAHVORE models with a negative linearity can be
 written to .cahvor files

---
 mrcal/cahvor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal/cahvor.py b/mrcal/cahvor.py
index 8ac6771..544f9ed 100644
--- a/mrcal/cahvor.py
+++ b/mrcal/cahvor.py
@@ -231,7 +231,7 @@ def _read(s, name):
     #   CAHVORE1
     #   CAHVORE2
     #   CAHVORE3,0.44
-    m = re.match(r'CAHVORE\s*([0-9]+)(\s*,\s*([0-9\.e-]+))?',x['Model'])
+    m = re.match(r'CAHVORE\s*([0-9]+)(\s*,\s*([0-9\.e+-]+))?',x['Model'])
     if m:
         modelname = x['Model']
         is_cahvore = True
@@ -293,7 +293,7 @@ def _deconstruct_model(model):
     x = dict()
 
     lensmodel,intrinsics = model.intrinsics()
-    m = re.match(r'^LENSMODEL_CAHVORE_linearity=([0-9\.]+)$', lensmodel)
+    m = re.match(r'^LENSMODEL_CAHVORE_linearity=([0-9\.e+-]+)$', lensmodel)
     if m is not None:
         x['cahvore_linearity'] = float(m.group(1))
     else:
-- 
2.43.0


From c044de12eaa3915cec0f59c1f6d09de22df9cd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 091/117] fix: mrcal-convert-lensmodel doesn't overwrite
 existing models without --force

---
 mrcal-convert-lensmodel | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/mrcal-convert-lensmodel b/mrcal-convert-lensmodel
index 2b1c6d8..bd47c70 100755
--- a/mrcal-convert-lensmodel
+++ b/mrcal-convert-lensmodel
@@ -361,10 +361,22 @@ else:
         directory,filename_base = os.path.split(f)
         file_output = f"{args.outdir}/{filename_base}-{lensmodel_to}{{CAMID}}{extension}"
 
-    if os.path.exists(file_output) and not args.force:
-        print(f"ERROR: '{file_output}' already exists. Not overwriting this file. Pass -f to overwrite",
-              file=sys.stderr)
-        sys.exit(1)
+    if not args.force:
+
+        # The logic here mirrors the writing logic below
+        camids = ('',)
+        if args.all and not args.sampled and not args.monocular and \
+           m.optimization_inputs() is not None:
+            Ncameras = len(m.optimization_inputs()['intrinsics'])
+            if Ncameras > 1:
+                camids = tuple('-{:02d}'.format(i) for i in range(Ncameras))
+
+        for camid in camids:
+            f = file_output.replace('{CAMID}', camid)
+            if os.path.exists(f):
+                print(f"ERROR: '{f}' already exists. Not overwriting this file. Pass -f to overwrite",
+                      file=sys.stderr)
+                sys.exit(1)
 
 
 lensmodel_from = m.intrinsics()[0]
-- 
2.43.0


From 1e8f2ad5a268300784fb63061795c024959fcc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 092/117] fix: the output of "rostopic echo" can be read, even
 with the trailing ---

---
 mrcal/cameramodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index b0fa792..e6d242f 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -965,7 +965,12 @@ So for the purposes of extrinsics, the reference is the "left-rectified" camera
                 def load():
                     try:
                         import yaml
-                        loaded = yaml.safe_load(modelstring)
+                        # "rostopic echo" ends each message with "---", so
+                        # there may be an empty document at the end
+                        loaded = [d for d in yaml.safe_load_all(modelstring) if d is not None]
+                        if len(loaded) != 1:
+                            raise CameramodelParseException(f"expected one yaml document; got {len(loaded)}")
+                        loaded = loaded[0]
                         if not isinstance(loaded, dict):
                             raise CameramodelParseException("yaml parsing did not generate a dictionary")
                         return loaded
-- 
2.43.0


From e95381428e98e1c9fb43fd66ebf2e007161db6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 093/117] fix: ROS camera models in json can be read

---
 mrcal/cameramodel.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index e6d242f..9e7cac0 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -591,6 +591,9 @@ A sample valid .cameramodel file:
             else:
                 raise CameramodelParseException(f"Failed to parse cameramodel '{name}'")
 
+        if not isinstance(model, dict):
+            raise CameramodelParseException("Failed to parse cameramodel! The data isn't a dictionary")
+
         # for legacy compatibility
         def renamed(name_from, name_to, d,
                     *,
@@ -617,7 +620,8 @@ A sample valid .cameramodel file:
         renamed('icam_intrinsics_optimization_inputs',
                 'icam_intrinsics',
                 model)
-        model['lensmodel'] = model['lensmodel'].replace('DISTORTION', 'LENSMODEL')
+        if isinstance(model.get('lensmodel'), str):
+            model['lensmodel'] = model['lensmodel'].replace('DISTORTION', 'LENSMODEL')
 
         renamed('extrinsics', 'rt_cam_ref',
                 model,
@@ -630,8 +634,8 @@ A sample valid .cameramodel file:
                              'rt_cam_ref',
                              'imagersize'))
         keys_received = set(model.keys())
-        if keys_received < keys_required:
-            raise Exception("Model must have at least these keys: '{}'. Instead I got '{}'". \
+        if not keys_required <= keys_received:
+            raise CameramodelParseException("Model must have at least these keys: '{}'. Instead I got '{}'". \
                             format(keys_required, keys_received))
 
         valid_intrinsics_region = None
-- 
2.43.0


From 0d059ce7135cdc7e41d234a6dd7691a26291690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 094/117] fix: mrcal-is-within-valid-intrinsics-region accepts
 null points, empty data, non-ascii data and any column name

---
 mrcal-is-within-valid-intrinsics-region | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/mrcal-is-within-valid-intrinsics-region b/mrcal-is-within-valid-intrinsics-region
index 1325cb4..aa5058a 100755
--- a/mrcal-is-within-valid-intrinsics-region
+++ b/mrcal-is-within-valid-intrinsics-region
@@ -93,19 +93,25 @@ if model.valid_intrinsics_region() is None:
 # Good-enough for now.
 in_file = sys.stdin.read()
 
-cmd = ('vnl-filter', '-p', '__linenumber=NR', '-p', f'^{args.cols_xy[0]}$', '-p', f'^{args.cols_xy[1]}$')
+cmd = ('vnl-filter', '-p', '__linenumber=NR', '-p', f'^{re.escape(args.cols_xy[0])}$', '-p', f'^{re.escape(args.cols_xy[1])}$')
 try:
     ixy_text = subprocess.check_output(cmd,
                                        shell    = False,
-                                       encoding = 'ascii',
+                                       encoding = 'utf-8',
                                        input    = in_file)
 except:
     print(f"Couldn't read columns {args.cols_xy} from the input",
           file = sys.stderr)
     sys.exit(1)
 
-ixy = nps.atleast_dims(np.loadtxt(io.StringIO(ixy_text)), -2)
-mask = mrcal.is_within_valid_intrinsics_region(ixy[..., 1:], model)
+# Any null x,y fields ('-' in the vnlog) become nan
+ixy = np.array([[float(x) if x != '-' else np.nan for x in l.split()] \
+                for l in ixy_text.splitlines() \
+                if l.strip() and not l.startswith('#')]).reshape(-1,3)
+valid = np.all(np.isfinite(ixy[:,1:]), axis=-1)
+mask  = np.zeros((len(ixy),), dtype=bool)
+if np.any(valid):
+    mask[valid] = mrcal.is_within_valid_intrinsics_region(ixy[valid, 1:], model)
 
 
 fd_read,fd_write = os.pipe()
@@ -118,10 +124,10 @@ if pid == 0:
     os.close(fd_read)
 
     with open(f"/dev/fd/{fd_write}", 'w') as f:
-        np.savetxt(f,
-                   nps.transpose(nps.cat(ixy[...,0], mask)),
-                   fmt='%06d %d',
-                   header=f'__linenumber {args.col_output}')
+        print(f'# __linenumber {args.col_output}', file = f)
+        for i in range(len(ixy)):
+            # points without valid coordinates produce a null output
+            print(f"{int(ixy[i,0]):06d} {int(mask[i]) if valid[i] else '-'}", file = f)
     os.close(fd_write)
     sys.exit(0)
 
@@ -134,7 +140,7 @@ cmd = f"vnl-filter --skipcomments -p __linenumber='sprintf(\"%06d\",NR)',. | vnl
 subprocess.run( cmd,
                 shell = True,
                 close_fds = False,
-                encoding = 'ascii',
+                encoding = 'utf-8',
                 input = in_file )
 
 os.close(fd_read)
-- 
2.43.0


From 1663faa0250002f17a0de03769a7ae684e1fdf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 095/117] fix: mrcal-reproject-points accepts data without any
 points

---
 mrcal-reproject-points | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mrcal-reproject-points b/mrcal-reproject-points
index 2eb2501..b2d5dec 100755
--- a/mrcal-reproject-points
+++ b/mrcal-reproject-points
@@ -81,7 +81,11 @@ model_from = mrcal.cameramodel(getattr(args, 'model-from'))
 model_to   = mrcal.cameramodel(getattr(args, 'model-to'))
 
 
-p = nps.atleast_dims(np.genfromtxt(sys.stdin), -2)
+p = np.genfromtxt(sys.stdin)
+if p.size == 0:
+    # no data at all
+    p = np.zeros((0,2), dtype=float)
+p = nps.atleast_dims(p, -2)
 v = mrcal.unproject(p, *model_from.intrinsics())
 
 print( "## generated on {} with   {}".format(time.strftime("%Y-%m-%d %H:%M:%S"),
-- 
2.43.0


From f6c107425ac843dd0908fd3a3c5b827fcf915975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 096/117] fix: mrcal-report-fov reports each undefined FOV
 correctly

---
 mrcal-report-fov | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal-report-fov b/mrcal-report-fov
index f3c4a8a..785285c 100755
--- a/mrcal-report-fov
+++ b/mrcal-report-fov
@@ -112,10 +112,10 @@ for i,model in enumerate(args.models):
     if th_centersx.size: print(f"{header}Mean FOV vertically:    {2.*np.mean(th_centersx):.2f}degrees")
     else:                print(f"{header}Mean FOV vertically:    undefined")
 
-    if th_centersx.size: print(f"{header}Mean FOV horizontally:  {2.*np.mean(th_centersy):.2f}degrees")
+    if th_centersy.size: print(f"{header}Mean FOV horizontally:  {2.*np.mean(th_centersy):.2f}degrees")
     else:                print(f"{header}Mean FOV horizontally:  undefined")
 
-    if th_centersx.size: print(f"{header}Mean FOV corner-corner: {2.*np.mean(th_corners):.2f}degrees")
+    if th_corners.size:  print(f"{header}Mean FOV corner-corner: {2.*np.mean(th_corners):.2f}degrees")
     else:                print(f"{header}Mean FOV corner-corner: undefined")
 
     if len(args.models) > 1 and i+1 != len(args.models):
-- 
2.43.0


From 1381554abfc2ae181ad0b0319b4814d2d88734e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 097/117] fix: mrcal-rotate-corners uses the given regular
 expressions verbatim

---
 mrcal-rotate-corners | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/mrcal-rotate-corners b/mrcal-rotate-corners
index 8078692..1ab62f7 100755
--- a/mrcal-rotate-corners
+++ b/mrcal-rotate-corners
@@ -80,15 +80,15 @@ while true; do
                 continue
                 ;;
             '--90')
-                cam_rotate90+=($2)
+                cam_rotate90+=("$2")
                 shift 2
                 ;;
             '--180')
-                cam_rotate180+=($2)
+                cam_rotate180+=("$2")
                 shift 2
                 ;;
             '--270')
-                cam_rotate270+=($2)
+                cam_rotate270+=("$2")
                 shift 2
                 ;;
             '--')
@@ -108,17 +108,23 @@ if (( $# )); then
     exit 1
 fi
 
+# The regexen are passed in the environment, to use them verbatim. If they were
+# strings in the expressions, awk would process the backslashes and vnl-filter
+# would replace anything that looks like a column name
 cam_rotate90_select_expression="0"
-for f in ${cam_rotate90[@]}; do
-    cam_rotate90_select_expression+=" || filename ~ \"$f\""
+for i in "${!cam_rotate90[@]}"; do
+    export mrcal_rotate90_$i="${cam_rotate90[$i]}"
+    cam_rotate90_select_expression+=" || filename ~ ENVIRON[\"mrcal_rotate90_$i\"]"
 done
 cam_rotate180_select_expression="0"
-for f in ${cam_rotate180[@]}; do
-    cam_rotate180_select_expression+=" || filename ~ \"$f\""
+for i in "${!cam_rotate180[@]}"; do
+    export mrcal_rotate180_$i="${cam_rotate180[$i]}"
+    cam_rotate180_select_expression+=" || filename ~ ENVIRON[\"mrcal_rotate180_$i\"]"
 done
 cam_rotate270_select_expression="0"
-for f in ${cam_rotate270[@]}; do
-    cam_rotate270_select_expression+=" || filename ~ \"$f\""
+for i in "${!cam_rotate270[@]}"; do
+    export mrcal_rotate270_$i="${cam_rotate270[$i]}"
+    cam_rotate270_select_expression+=" || filename ~ ENVIRON[\"mrcal_rotate270_$i\"]"
 done
 
 Nx=$gridn
-- 
2.43.0


From 91008d8ff253fa77688449b613106bb40532ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 098/117] fix: mrcal-cull-corners treats points at the
 threshold as documented, and too-big -D values cull everything

---
 mrcal-cull-corners | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mrcal-cull-corners b/mrcal-cull-corners
index 02c501b..95ee9c0 100755
--- a/mrcal-cull-corners
+++ b/mrcal-cull-corners
@@ -196,6 +196,10 @@ if args.cull_left_of              is not None or \
             dims = np.array(args.imagersize, dtype=float)
             c  = (dims - 1.) / 2.
             r = nps.mag(dims)/2. + args.cull_rad_off_center
+            if r < 0:
+                # every point is close-enough to some corner to be culled. No point satisfies
+                # norm2(...) <= r*r
+                r = np.nan
 
     if args.cull_rad_off_center_board is not None:
         cboard = (np.array((args.object_width_n, args.object_height_n), dtype=float) - 1.) / 2.
@@ -231,11 +235,11 @@ if args.cull_left_of              is not None or \
             sys.stdout.write(l)
             continue
 
-        if args.cull_left_of        is not None and float(f[1]) > args.cull_left_of:
+        if args.cull_left_of        is not None and float(f[1]) >= args.cull_left_of:
             sys.stdout.write(l)
             continue
         if args.cull_rad_off_center is not None and \
-           nps.norm2(np.array((float(f[1]), float(f[2]))) - c) < r*r:
+           nps.norm2(np.array((float(f[1]), float(f[2]))) - c) <= r*r:
             sys.stdout.write(l)
             continue
         if args.cull_rad_off_center_board is not None:
@@ -243,7 +247,7 @@ if args.cull_left_of              is not None or \
                 filename_current = f[0]
                 xy_pt *= 0
 
-            accept_pt = nps.norm2(xy_pt - cboard) < args.cull_rad_off_center_board*args.cull_rad_off_center_board
+            accept_pt = nps.norm2(xy_pt - cboard) <= args.cull_rad_off_center_board*args.cull_rad_off_center_board
 
             xy_pt[0] += 1
             if xy_pt[0] == args.object_width_n:
-- 
2.43.0


From e7f81e828e1875d2ebb1322abba7e1450c67d38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 099/117] fix: mrcal-cull-corners checks the options even if
 given a 0 threshold

---
 mrcal-cull-corners | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal-cull-corners b/mrcal-cull-corners
index 95ee9c0..cc8018b 100755
--- a/mrcal-cull-corners
+++ b/mrcal-cull-corners
@@ -143,12 +143,12 @@ if Nculloptions != 1:
 
 if args.object_width_n is not None and args.object_height_n is None:
     args.object_height_n = args.object_width_n
-if args.cull_random_observations_ratio or args.cull_rad_off_center_board:
+if args.cull_random_observations_ratio is not None or args.cull_rad_off_center_board is not None:
     if (args.object_width_n is None or args.object_height_n is None):
         print("--cull-random-observation-ratio and --cull-rad-off-center-board requires --object-width-n",
               file=sys.stderr)
         sys.exit(1)
-if args.cull_random_observations_ratio:
+if args.cull_random_observations_ratio is not None:
     if args.filename is not None:
         print("--cull-random-observation-ratio is exclusive with --filename",
               file=sys.stderr)
-- 
2.43.0


From 813e5a0e98d57b4a4462b7a03f168557a6c3da60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 100/117] fix: mrcal-cull-corners --cull-rad-off-center-board
 counts missing corners

---
 mrcal-cull-corners | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/mrcal-cull-corners b/mrcal-cull-corners
index cc8018b..a39f0db 100755
--- a/mrcal-cull-corners
+++ b/mrcal-cull-corners
@@ -226,6 +226,20 @@ if args.cull_left_of              is not None or \
             continue
 
         f = l.split()
+
+        if args.cull_rad_off_center_board is not None:
+            # Each row is a board corner, even if it's missing: '-'
+            if filename_current != f[0]:
+                filename_current = f[0]
+                xy_pt *= 0
+
+            accept_pt = nps.norm2(xy_pt - cboard) <= args.cull_rad_off_center_board*args.cull_rad_off_center_board
+
+            xy_pt[0] += 1
+            if xy_pt[0] == args.object_width_n:
+                xy_pt[0] = 0
+                xy_pt[1] += 1
+
         if f[1] == '-':
             sys.stdout.write(l)
             continue
@@ -242,20 +256,9 @@ if args.cull_left_of              is not None or \
            nps.norm2(np.array((float(f[1]), float(f[2]))) - c) <= r*r:
             sys.stdout.write(l)
             continue
-        if args.cull_rad_off_center_board is not None:
-            if filename_current != f[0]:
-                filename_current = f[0]
-                xy_pt *= 0
-
-            accept_pt = nps.norm2(xy_pt - cboard) <= args.cull_rad_off_center_board*args.cull_rad_off_center_board
-
-            xy_pt[0] += 1
-            if xy_pt[0] == args.object_width_n:
-                xy_pt[0] = 0
-                xy_pt[1] += 1
-            if accept_pt:
-                sys.stdout.write(l)
-                continue
+        if args.cull_rad_off_center_board is not None and accept_pt:
+            sys.stdout.write(l)
+            continue
 
         # Cull the point!
         f[3] = '-'
-- 
2.43.0


From 92eee21badcdf95e7b605b4d5101929a33a2b537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 101/117] fix: mrcal-cull-corners
 --cull-random-observations-ratio reads the decimation levels as levels, and
 doesn't cull anything else

---
 mrcal-cull-corners | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mrcal-cull-corners b/mrcal-cull-corners
index a39f0db..2f29db1 100755
--- a/mrcal-cull-corners
+++ b/mrcal-cull-corners
@@ -274,7 +274,9 @@ observations, _, paths = \
     mrcal.compute_chessboard_corners(W                  = args.object_width_n,
                                      H                  = args.object_height_n,
                                      corners_cache_vnl  = sys.stdin,
-                                     weight_column_kind = 'weight')
+                                     weight_column_kind = 'level',
+                                 # keep all the observations that have any points
+                                 Npoint_observations_per_board_min = 0)
 
 N_keep       = int(round((1.0 - args.cull_random_observations_ratio) * len(observations)))
 indices_keep = np.sort(np.random.choice(len(observations), N_keep, replace=False))
@@ -293,7 +295,7 @@ print('# filename x y level')
 for i in range(len(paths)):
     path   = paths[i]
     for j in range(observations.shape[-2]):
-        l = observations[i][j][2]
-        if l < 0: l = '-'
-        else:     l = int(l)
-        print(f"{path} {observations[i][j][0]} {observations[i][j][1]} {l}")
+        x,y,w = observations[i][j]
+        # weight = 2^(-level)
+        if w <= 0: print(f"{path} - - -")
+        else:      print(f"{path} {x} {y} {int(round(-np.log2(w)))}")
-- 
2.43.0


From 10d3c2a7f175fd6cc2a0e724eb9b449c54290c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:52 +0000
Subject: [PATCH 102/117] fix: mrcal-triangulate --make-corrected-model1
 reports the error if the corrections couldn't be computed

---
 mrcal-triangulate | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal-triangulate b/mrcal-triangulate
index 71d89ea..30d861b 100755
--- a/mrcal-triangulate
+++ b/mrcal-triangulate
@@ -908,7 +908,7 @@ if dyawdpitch is not None:
     print("## Optimized relative yaw (1 <- 0): {:.3f} degrees".format(rt10[1] * 180./np.pi))
 
 if args.make_corrected_model1:
-    if dyaw is None:
+    if dyawdpitch is None:
         print("I can't make the corrected model if I couldn't compute the yaw,pitch shifts", file=sys.stderr)
         sys.exit(1)
     rt_1r = mrcal.compose_rt(rt10,
-- 
2.43.0


From faf3b8568b7859c19a0db5c1b19bcf38b559a111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 103/117] fix: match_feature() accepts numpy integers in
 template_size1

---
 mrcal/stereo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/stereo.py b/mrcal/stereo.py
index a2f3d74..fcd32da 100644
--- a/mrcal/stereo.py
+++ b/mrcal/stereo.py
@@ -1890,7 +1890,7 @@ data_tuples, plot_options. The plot can then be made with gp.plot(*data_tuples,
     if N != 2:
         raise Exception(f"template_size1 must be an interable of length 2 OR a scalar. Got an iterable of length {N}")
     for i in range(2):
-        if not (isinstance(template_size1[i], int) and template_size1[i] > 0):
+        if not (isinstance(template_size1[i], (int,np.integer)) and template_size1[i] > 0):
             raise Exception(f"Each element of template_size1 must be an integer > 0. Got {template_size1[i]}")
 
     template_size1 = np.array(template_size1, dtype=int)
-- 
2.43.0


From fa46430b2544672af1da96b4b31c466131ce5a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 104/117] fix: match_feature() returns None if the subpixel
 interpolation fails, instead of a far-away or non-finite pixel

---
 mrcal/stereo.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mrcal/stereo.py b/mrcal/stereo.py
index fcd32da..1dc71ca 100644
--- a/mrcal/stereo.py
+++ b/mrcal/stereo.py
@@ -2046,8 +2046,15 @@ data_tuples, plot_options. The plot can then be made with gp.plot(*data_tuples,
     c = lsqsq_result[0]
     (c00, c10, c01, c20, c11, c02) = c
     det = 4.*c20*c02 - c11*c11
+
+    # I need an extremum (not a saddle), and it should be in the 3x3 window I'm
+    # fitting. If the image has no texture in some direction, I get neither
+    if not det > 0:
+        return (None, diagnostics) + default_plot_args
     xy_subpixel = -np.array((2.*c10*c02 - c01*c11,
                              2.*c01*c20 - c10*c11)) / det
+    if not np.all(np.abs(xy_subpixel) <= 1.):
+        return (None, diagnostics) + default_plot_args
     x,y = xy_subpixel
     matchoutput_optimum_subpixel = c00 + c10*x + c01*y + c20*x*x + c11*x*y + c02*y*y
     q1_cut = q1_cut.astype(float) + xy_subpixel
-- 
2.43.0


From 43fc30e60e7077cee667735372d105b49c1feb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:21 +0000
Subject: [PATCH 105/117] fix: mrcal-stereo --force-grayscale doesn't overflow
 when averaging the color channels

---
 mrcal-stereo | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal-stereo b/mrcal-stereo
index 69ac457..487f0f7 100755
--- a/mrcal-stereo
+++ b/mrcal-stereo
@@ -959,7 +959,7 @@ def process(i_image):
     if args.force_grayscale:
         for i in range(2):
             if images[i].ndim == 3:
-                images[i] = np.mean(images[i], axis=-1, dtype=images[i].dtype)
+                images[i] = np.mean(images[i], axis=-1).astype(images[i].dtype)
 
     if args.equalization == 'clahe':
         images = [ clahe.apply(image) for image in images ]
-- 
2.43.0


From b6a081ea300fcf5dec7e7ea94d4407520cc2e1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:21 +0000
Subject: [PATCH 106/117] fix: mrcal-reproject-image --fit accepts the
 non-integer pixel coordinates that it says it accepts

---
 mrcal-reproject-image | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal-reproject-image b/mrcal-reproject-image
index 8daf251..6ba1a0c 100755
--- a/mrcal-reproject-image
+++ b/mrcal-reproject-image
@@ -425,7 +425,7 @@ import numpysane as nps
 
 if args.fit is not None:
     if re.match(r"^[0-9\.e-]+(,[0-9\.e-]+)*$", args.fit):
-        xy = np.array([int(x) for x in args.fit.split(',')], dtype=float)
+        xy = np.array([float(x) for x in args.fit.split(',')], dtype=float)
         Nxy = len(xy)
         if Nxy % 2 or Nxy < 4:
             print(f"If passing pixel coordinates to --fit, I need at least 2 x,y pairs. Instead got {Nxy} values",
-- 
2.43.0


From 4b18e596145a577cffec2b1730f79cb8a8cc7587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:21 +0000
Subject: [PATCH 107/117] fix: write_point_cloud_as_ply() ascii: keep the
 coordinates, and write the columns that the header declares

---
 mrcal/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index a4d27b7..24754e4 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -1754,7 +1754,7 @@ property float z
                                 axis = -1)
                 np.savetxt(f,
                            pbgr,
-                           fmt      = ('%.1f','%.1f','%.1f','%d'),
+                           fmt      = ('%.9g','%.9g','%.9g','%d'),
                            comments = '',
                            header   = '')
             elif color is not None and color.ndim == 2:
@@ -1763,15 +1763,14 @@ property float z
                                 color[:,(2,)],
                                 color[:,(1,)],
                                 color[:,(0,)],
-                                255*np.ones((N,1)),
                                 axis = -1)
                 np.savetxt(f,
                            pbgr,
-                           fmt      = ('%.1f','%.1f','%.1f','%d','%d','%d','%d'),
+                           fmt      = ('%.9g','%.9g','%.9g','%d','%d','%d'),
                            comments = '',
                            header   = '')
             else:
                 np.savetxt(f, points,
-                           fmt      = ('%.1f','%.1f','%.1f',),
+                           fmt      = ('%.9g','%.9g','%.9g',),
                            comments = '',
                            header   = '')
-- 
2.43.0


From ac238d36bee09facbbb52ff04d87bc9f091c4dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:21 +0000
Subject: [PATCH 108/117] fix: mrcal-reproject-image reports the images that
 couldn't be processed in its exit status

---
 mrcal-reproject-image | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/mrcal-reproject-image b/mrcal-reproject-image
index 6ba1a0c..ed67d7d 100755
--- a/mrcal-reproject-image
+++ b/mrcal-reproject-image
@@ -523,19 +523,20 @@ def _transform_this(inout):
     except:
         print(f"Couldn't load '{inout[0]}'",
               file=sys.stderr)
-        return
+        return False
 
     if image.shape[0] != model_imagersize[1] or \
        image.shape[1] != model_imagersize[0]:
         print(f"Couldn't process {inout[0]}: image dimensions don't match the input model dimensions. Image size: [{image.shape[1]} {image.shape[0]}]. model.imagersize(): {model_imagersize}",
               file=sys.stderr)
-        return
+        return False
 
     if model_valid_intrinsics_region is not None:
         mrcal.annotate_image__valid_intrinsics_region(image, model_valid_intrinsics_region)
     image_transformed = mrcal.transform_image(image, mapxy)
     mrcal.save_image(inout[1], image_transformed)
     print(f"Wrote {inout[1]}", file=sys.stderr)
+    return True
 
 def process(model_from, model_to, image_globs, suffix,
             intrinsics_only, distance, plane_n, plane_d):
@@ -586,10 +587,14 @@ def process(model_from, model_to, image_globs, suffix,
         try:
             mapresult = pool.map_async(_transform_this, filenames_inout)
 
-            # like wait(), but will barf if something goes wrong. I don't actually care
-            # about the results
-            mapresult.get(1000000)
+            # like wait(), but will barf if something goes wrong
+            results = mapresult.get(1000000)
+        except Exception as e:
+            print(f"Error processing the images: {e}", file=sys.stderr)
+            results = (False,)
+            pool.terminate()
         except:
+            results = (False,)
             pool.terminate()
 
         pool.close()
@@ -597,20 +602,26 @@ def process(model_from, model_to, image_globs, suffix,
 
     else:
         # Serial path. Useful for debugging
-        for f in filenames_inout:
-            _transform_this(f)
+        results = [_transform_this(f) for f in filenames_inout]
 
+    return all(results)
 
 
 
 if args.to_pinhole and args.model_to:
     # I'm reprojecting each of my sets of images to a pinhole model (a DIFFERENT
     # model from TO and FROM)
-    process(model_from, model_target, (args.imageglobs[0],), "pinhole-remapped",
-            args.intrinsics_only, args.distance, args.plane_n, args.plane_d)
-    process(model_to,   model_target, (args.imageglobs[1],), "pinhole",
-            args.intrinsics_only, args.distance, None, None)
+    success = \
+        process(model_from, model_target, (args.imageglobs[0],), "pinhole-remapped",
+                args.intrinsics_only, args.distance, args.plane_n, args.plane_d)
+    success = \
+        process(model_to,   model_target, (args.imageglobs[1],), "pinhole",
+                args.intrinsics_only, args.distance, None, None) and success
 else:
     # Simple case. I have my two models, and I reproject all the images
-    process(model_from, model_to, args.imageglobs, "reprojected",
-            args.intrinsics_only, args.distance, args.plane_n, args.plane_d)
+    success = \
+        process(model_from, model_to, args.imageglobs, "reprojected",
+                args.intrinsics_only, args.distance, args.plane_n, args.plane_d)
+
+if not success:
+    sys.exit(1)
-- 
2.43.0


From c3ec178703fe59e2377cfd51be5a9dce74691036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 109/117] fix: mrcal-stereo reports the images that couldn't be
 processed in its exit status

---
 mrcal-stereo | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mrcal-stereo b/mrcal-stereo
index 487f0f7..8241c07 100755
--- a/mrcal-stereo
+++ b/mrcal-stereo
@@ -1425,9 +1425,8 @@ def gui_stereo(images,
 if Nimages == 1 or args.jobs <= 1:
 
     # Serial path. Useful for debugging or if I only have one set of images
-    for i in range(Nimages):
-        process(i)
-    sys.exit(0)
+    results = [process(i) for i in range(Nimages)]
+    sys.exit(0 if all(results) else 1)
 
 ####### Parallel path
 
@@ -1448,11 +1447,17 @@ pool = multiprocessing.Pool(args.jobs)
 try:
     mapresult = pool.map_async(process, np.arange(Nimages))
 
-    # like wait(), but will barf if something goes wrong. I don't actually care
-    # about the results
-    mapresult.get(1000000)
+    # like wait(), but will barf if something goes wrong
+    results = mapresult.get(1000000)
+except Exception as e:
+    print(f"Error processing the images: {e}", file=sys.stderr)
+    results = (False,)
+    pool.terminate()
 except:
+    results = (False,)
     pool.terminate()
 
 pool.close()
 pool.join()
+
+sys.exit(0 if all(results) else 1)
-- 
2.43.0


From 39f4ddf778848028a952df8471e9a4b6acd15e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:13 +0000
Subject: [PATCH 110/117] fix: mrcal-stereo doesn't add points at the camera
 center to the point cloud for the pixels without a range

---
 mrcal-stereo | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mrcal-stereo b/mrcal-stereo
index 8241c07..1ca667f 100755
--- a/mrcal-stereo
+++ b/mrcal-stereo
@@ -760,12 +760,13 @@ def write_output_all(args,
     Rt_ref_rect0 = models_rectified[0].Rt_ref_cam()
     Rt_cam0_ref  = models          [0].Rt_cam_ref()
 
-    # Point cloud in ref coordinates
-    # shape (H,W,3)
-    p_ref = mrcal.transform_point_Rt(Rt_ref_rect0, p_rect0)
+    # Throw out the pixels without a valid range. These are reported as range=0
+    # shape (N,3)
+    p_rect0 = p_rect0[ranges > 0]
 
+    # Point cloud in ref coordinates
     # shape (N,3)
-    p_ref = nps.clump(p_ref, n=2)
+    p_ref = mrcal.transform_point_Rt(Rt_ref_rect0, p_rect0)
 
     # I set each point color to the nearest-pixel color in the original
     # image. I only report those points that are in-bounds (they SHOULD
-- 
2.43.0


From 89aa3a768ed76a88972c61c3fae18594e4863518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:28 +0000
Subject: [PATCH 111/117] fix: a calibration_object_spacing that is NAN is
 rejected

---
 mrcal-pywrap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 426e1f7..b1e4bde 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1016,7 +1016,8 @@ static bool optimize_validate_args( // out
 
     if( Nobservations_board > 0)
     {
-        if( calibration_object_spacing <= 0.0 )
+        // written this way to reject NAN
+        if( !(calibration_object_spacing > 0.0) )
         {
             BARF("We have board observations, so calibration_object_spacing MUST be a valid float > 0");
             return false;
-- 
2.43.0


From c0d7983071fd1642d15ef4e21de76890e3902339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:28 +0000
Subject: [PATCH 112/117] fix: a negative Npoints_fixed is rejected instead of
 reading past the points

---
 mrcal-pywrap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index b1e4bde..e072f37 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1143,6 +1143,11 @@ static bool optimize_validate_args( // out
     }
 
     int Npoints = PyArray_DIMS(points)[0];
+    if( Npoints_fixed < 0 )
+    {
+        BARF("Npoints_fixed MUST be >= 0; got %d", Npoints_fixed);
+        return false;
+    }
     if( Npoints > 0 )
     {
         if(Npoints_fixed > Npoints)
-- 
2.43.0


From 3ea742ad52f43e1153ca4422120231b5448bf82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:28 +0000
Subject: [PATCH 113/117] fix: arrays in the non-native byte order are rejected
 instead of being misinterpreted

---
 python-wrapping-utilities.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python-wrapping-utilities.h b/python-wrapping-utilities.h
index d3c3b92..ba589ea 100644
--- a/python-wrapping-utilities.h
+++ b/python-wrapping-utilities.h
@@ -95,6 +95,12 @@ static bool _check_layout(const char*    name,
         }
         if( npy_type >= 0 )
         {
+            if( !PyArray_ISBEHAVED_RO(pyarrayobj) )
+            {
+                BARF("'%s' must be aligned, and in the native byte order",
+                     name);
+                return false;
+            }
             if( PyArray_TYPE(pyarrayobj) != npy_type )
             {
                 BARF("'%s' must have type: %s",
-- 
2.43.0


From eed37852cdfb1368e1c34b94a8638ac687cf58eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:57 +0000
Subject: [PATCH 114/117] fix: the optimizer rejects intrinsics=None and
 imagersizes=None instead of crashing

---
 mrcal-pywrap.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index e072f37..23279a7 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -959,6 +959,12 @@ static bool lensmodel_one_validate_args( // out
         LENSMODEL_ONE_ARGUMENTS(CHECK_LAYOUT, );
     }
 
+    if(IS_NULL(intrinsics))
+    {
+        BARF("'intrinsics' must be given");
+        return false;
+    }
+
     if(!parse_lensmodel_from_arg(mrcal_lensmodel, lensmodel))
         return false;
     int NlensParams      = mrcal_lensmodel_num_params(mrcal_lensmodel);
@@ -995,6 +1001,12 @@ static bool optimize_validate_args( // out
     OPTIMIZER_CALLBACK_ARGUMENTS_OPTIONAL_EXTRA(CHECK_LAYOUT);
     CROSS_REPROJECTION_CALLBACK_ARGUMENTS_OPTIONAL_EXTRA(CHECK_LAYOUT);
 
+    if(IS_NULL(intrinsics) || IS_NULL(imagersizes))
+    {
+        BARF("'intrinsics' and 'imagersizes' must be given");
+        return false;
+    }
+
     int Ncameras_intrinsics = PyArray_DIMS(intrinsics)[0];
     int Ncameras_extrinsics = PyArray_DIMS(rt_cam_ref)[0];
     if( PyArray_DIMS(imagersizes)[0] != Ncameras_intrinsics )
-- 
2.43.0


From b67e6038dcbf53170268b4ad6346478c8ad979a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 115/117] fix: pack_state() and unpack_state() reject arrays
 that aren't writeable, or aren't in the native byte order

---
 mrcal-pywrap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 23279a7..9bff5dd 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -3566,6 +3566,12 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
         goto done;
     }
 
+    if( !PyArray_ISBEHAVED(b) )
+    {
+        BARF("The given array MUST be writeable, aligned and in the native byte order");
+        goto done;
+    }
+
     if( !PyArray_IS_C_CONTIGUOUS(b) )
     {
         BARF("The given array MUST be a C-style contiguous array");
-- 
2.43.0


From 6e3d026b6ce42b38d9fa838acf702901c0f3758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 116/117] fix: num_measurements(),
 decode_observation_indices_points_triangulated() and
 corresponding_icam_extrinsics() no longer crash with indices given as None

---
 mrcal-pywrap.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 9bff5dd..6ae28c4 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1341,7 +1341,7 @@ int fill_c_observations_point_triangulated(// output. I fill in the given arrays
 
                                            const PyArrayObject* indices_point_triangulated_camintrinsics_camextrinsics)
 {
-    if(indices_point_triangulated_camintrinsics_camextrinsics == NULL)
+    if(IS_NULL(indices_point_triangulated_camintrinsics_camextrinsics))
         return 0;
 
     int result = -1;
@@ -3235,7 +3235,7 @@ static PyObject* callback_num_measurements(int i,
 
     int N = 0;
 
-    if(indices_point_triangulated_camintrinsics_camextrinsics != NULL)
+    if(!IS_NULL(indices_point_triangulated_camintrinsics_camextrinsics))
         N = PyArray_DIM(indices_point_triangulated_camintrinsics_camextrinsics, 0);
     else
     {
@@ -3315,7 +3315,7 @@ static PyObject* callback_corresponding_icam_extrinsics(int icam_intrinsics,
 
     int icam_extrinsics;
 
-    if(Nobservations_board > 0 && indices_frame_camintrinsics_camextrinsics == NULL)
+    if(Nobservations_board > 0 && IS_NULL(indices_frame_camintrinsics_camextrinsics))
     {
         BARF("Have Nobservations_board > 0, but indices_frame_camintrinsics_camextrinsics == NULL. Some required arguments missing?");
         return NULL;
@@ -3329,12 +3329,12 @@ static PyObject* callback_corresponding_icam_extrinsics(int icam_intrinsics,
 
     if(Nobservations_point > 0)
     {
-        if(indices_point_camintrinsics_camextrinsics == NULL)
+        if(IS_NULL(indices_point_camintrinsics_camextrinsics))
         {
             BARF("Have Nobservations_point > 0, but indices_point_camintrinsics_camextrinsics == NULL. Some required arguments missing?");
             return NULL;
         }
-        if(observations_point == NULL)
+        if(IS_NULL(observations_point))
         {
             BARF("Have Nobservations_point > 0, but observations_point == NULL. Some required arguments missing?");
             return NULL;
@@ -3390,7 +3390,7 @@ static PyObject* callback_decode_observation_indices_points_triangulated(int ime
 {
 
 
-    if(indices_point_triangulated_camintrinsics_camextrinsics == NULL)
+    if(IS_NULL(indices_point_triangulated_camintrinsics_camextrinsics))
     {
         BARF("No triangulated points in this solve. Nothing to decode");
         return NULL;
-- 
2.43.0


From f37798ea22f26842b19ac774efe07b77f890e342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 117/117] fix: corresponding_icam_extrinsics() reports
 out-of-bounds camera indices and too-short index tables instead of accessing
 memory out of bounds

---
 mrcal-pywrap.c | 13 +++++++++++++
 mrcal.c        | 16 ++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 6ae28c4..b231d7f 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -3320,6 +3320,13 @@ static PyObject* callback_corresponding_icam_extrinsics(int icam_intrinsics,
         BARF("Have Nobservations_board > 0, but indices_frame_camintrinsics_camextrinsics == NULL. Some required arguments missing?");
         return NULL;
     }
+    if(Nobservations_board > 0 &&
+       PyArray_DIM(indices_frame_camintrinsics_camextrinsics, 0) < Nobservations_board)
+    {
+        BARF("Have Nobservations_board = %d, but indices_frame_camintrinsics_camextrinsics has only %ld rows",
+             Nobservations_board, PyArray_DIM(indices_frame_camintrinsics_camextrinsics, 0));
+        return NULL;
+    }
     mrcal_observation_board_t c_observations_board[Nobservations_board];
     fill_c_observations_board(// output
                               c_observations_board,
@@ -3339,6 +3346,12 @@ static PyObject* callback_corresponding_icam_extrinsics(int icam_intrinsics,
             BARF("Have Nobservations_point > 0, but observations_point == NULL. Some required arguments missing?");
             return NULL;
         }
+        if(PyArray_DIM(indices_point_camintrinsics_camextrinsics, 0) < Nobservations_point)
+        {
+            BARF("Have Nobservations_point = %d, but indices_point_camintrinsics_camextrinsics has only %ld rows",
+                 Nobservations_point, PyArray_DIM(indices_point_camintrinsics_camextrinsics, 0));
+            return NULL;
+        }
     }
     mrcal_observation_point_t c_observations_point[Nobservations_point];
     fill_c_observations_point(// output
diff --git a/mrcal.c b/mrcal.c
index 8e2151d..fb97054 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -3923,6 +3923,8 @@ int mrcal_num_states_calobject_warp(mrcal_problem_selections_t problem_selection
 // returning false
 static
 bool _corresponding_icam_extrinsics__check( const mrcal_camera_index_t* icam, int i,
+                                            int Ncameras_intrinsics,
+                                            int Ncameras_extrinsics,
                                             int* icam_map_to_extrinsics,
                                             int* icam_map_to_intrinsics,
                                             const char* what)
@@ -3932,6 +3934,16 @@ bool _corresponding_icam_extrinsics__check( const mrcal_camera_index_t* icam, in
 
     if(icam_extrinsics < 0) icam_extrinsics = -1;
 
+    if(!(0 <= icam_intrinsics && icam_intrinsics < Ncameras_intrinsics &&
+         icam_extrinsics < Ncameras_extrinsics))
+    {
+        MSG("Cannot compute icam_extrinsics. %s observation %d has out-of-bounds icam_intrinsics,icam_extrinsics %d,%d. Have Ncameras_intrinsics,Ncameras_extrinsics %d,%d",
+            what, i,
+            icam_intrinsics, icam_extrinsics,
+            Ncameras_intrinsics, Ncameras_extrinsics);
+        return false;
+    }
+
     if(icam_map_to_intrinsics[icam_extrinsics+1] == -100)
         icam_map_to_intrinsics[icam_extrinsics+1] = icam_intrinsics;
     else if(icam_map_to_intrinsics[icam_extrinsics+1] != icam_intrinsics)
@@ -3981,12 +3993,16 @@ bool mrcal_corresponding_icam_extrinsics(// out
 
     for(int i=0; i<Nobservations_board; i++)
         if(!_corresponding_icam_extrinsics__check( &observations_board[i].icam, i,
+                                                   Ncameras_intrinsics,
+                                                   Ncameras_extrinsics,
                                                    icam_map_to_extrinsics,
                                                    icam_map_to_intrinsics,
                                                    "board"))
             return false;
     for(int i=0; i<Nobservations_point; i++)
         if(!_corresponding_icam_extrinsics__check( &observations_point[i].icam, i,
+                                                   Ncameras_intrinsics,
+                                                   Ncameras_extrinsics,
                                                    icam_map_to_extrinsics,
                                                    icam_map_to_intrinsics,
                                                    "point"))
-- 
2.43.0

