From 8db03571181c4efe27880be8ff649cd924aa5d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:46 +0000
Subject: [PATCH 01/80] fix: drop stray theta factor in small-angle
 (1-cos)/theta^2 series

The series for (1-cos(theta))/theta^2 was additionally multiplied by
theta, so rotmat_expv and tfmat_expv lost the second-order term for
angles below about 1.2e-4 rad.
---
 src/tf/tfmatrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tf/tfmatrix.c b/src/tf/tfmatrix.c
index f95979c..d5b1435 100644
--- a/src/tf/tfmatrix.c
+++ b/src/tf/tfmatrix.c
@@ -269,7 +269,7 @@ aa_tf_rotmat_expv( const double rv[AA_RESTRICT 4], double E[9] )
 
     if( theta2*theta2 < DBL_EPSILON ) {
         sc = aa_tf_sinc_series2(theta2);
-        cc = theta * aa_horner3( theta2, 1./2, -1./24, 1./720 );
+        cc = aa_horner3( theta2, 1./2, -1./24, 1./720 );
     } else {
         double s = sin(theta), c = cos(theta);
         sc = s/theta;
@@ -703,7 +703,7 @@ aa_tf_tfmat_expv( const double v[AA_RESTRICT 6],
     double sc, cc, ssc;
     if( theta2*theta2 < DBL_EPSILON ) {
         sc = aa_tf_sinc_series2(theta2);
-        cc = theta * aa_horner3( theta2, 1./2, -1./24, 1./720 );
+        cc = aa_horner3( theta2, 1./2, -1./24, 1./720 );
         ssc = aa_horner3( theta2, 1./6, -1./120, 1./5040 );
     } else {
         double s = sin(theta), c = cos(theta);
-- 
2.43.0


From 2ebbe76fbdc7b2300a7261d8f8a6b26c34e7f741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:46 +0000
Subject: [PATCH 02/80] fix: logarithm of a negative real quaternion is not NaN

aa_tf_quat2rotvec and aa_tf_qln divided 0 by 0 for q = (0,0,0,-w).
---
 src/tf/conv.c     | 7 ++++++-
 src/tf/quat_ord.c | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/tf/conv.c b/src/tf/conv.c
index 5c7737e..57b1d37 100644
--- a/src/tf/conv.c
+++ b/src/tf/conv.c
@@ -245,8 +245,13 @@ aa_tf_quat2rotvec( const double q[AA_RESTRICT 4], double r[AA_RESTRICT 3] )
     double a;
     if (theta < sqrt(sqrt(DBL_EPSILON))) {
         a = 2*aa_tf_invsinc_series(theta);
-    } else {
+    } else if (qs > 0) {
         a = 2*theta/qs;
+    } else {
+        /* q = -1: rotation by 2*pi, the axis is arbitrary */
+        r[0] = 2*theta;
+        r[1] = r[2] = 0;
+        return;
     }
 
     FOR_VEC(i) r[i] = a*q_v[i];
diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index 255db03..f3b0599 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -453,8 +453,14 @@ aa_tf_qln( const double q[AA_RESTRICT 4], double r[AA_RESTRICT 4] )
 
     if( phi < sqrt(sqrt(DBL_EPSILON)) ) {
         a = aa_tf_invsinc_series(phi)/qnorm; /* approx. 1/qnorm */
-    } else {
+    } else if( vnorm > 0 ) {
         a = phi/vnorm;
+    } else {
+        /* negative real: the direction is arbitrary */
+        r[AA_TF_QUAT_X] = phi;
+        r[AA_TF_QUAT_Y] = r[AA_TF_QUAT_Z] = 0;
+        r[AA_TF_QUAT_W] = log(qnorm);
+        return;
     }
 
     FOR_VEC(i) r[AA_TF_QUAT_V + i] = a*q_v[i];
-- 
2.43.0


From 425e85d71555b0fe5431d5b251067dd74f2ef996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:11 +0000
Subject: [PATCH 03/80] fix: aa_bits_and/or/xor terminate and stay in bounds

The word counter was never decremented, so the loops never ended and
only touched the word past the end.
---
 include/amino/mem.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/amino/mem.h b/include/amino/mem.h
index 83ba975..fdefc4a 100644
--- a/include/amino/mem.h
+++ b/include/amino/mem.h
@@ -698,7 +698,7 @@ static inline void
 aa_bits_and( aa_bits *a, const aa_bits *b, size_t n_bits )
 {
     size_t n_words = aa_bits_words(n_bits);
-    while( n_words ) {
+    while( n_words-- ) {
         a[n_words] &= b[n_words];
     }
 }
@@ -710,7 +710,7 @@ static inline void
 aa_bits_or( aa_bits *a, const aa_bits *b, size_t n_bits )
 {
     size_t n_words = aa_bits_words(n_bits);
-    while( n_words ) {
+    while( n_words-- ) {
         a[n_words] |= b[n_words];
     }
 }
@@ -722,7 +722,7 @@ static inline void
 aa_bits_xor( aa_bits *a, const aa_bits *b, size_t n_bits )
 {
     size_t n_words = aa_bits_words(n_bits);
-    while( n_words ) {
+    while( n_words-- ) {
         a[n_words] ^= b[n_words];
     }
 }
-- 
2.43.0


From 718d00807071fce84e69c53c7cf769dc48b97966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:27 +0000
Subject: [PATCH 04/80] fix: popping a mark taken from a full region chunk
 keeps live chunks

aa_mem_region_ptr of an exactly full chunk is the chunk's (aligned) end.
Popping it did not find the chunk and freed every chunk of the region,
including those with live allocations.
---
 src/mem.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mem.c b/src/mem.c
index 8fd4ce2..8b557ec 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -129,7 +129,8 @@ size_t aa_mem_region_freesize( aa_mem_region_t *region ) {
 }
 
 static inline int aa_mem_region_pop_in_node( uint8_t *ptr, struct aa_mem_region_node *node ) {
-    return ptr >= node->d  && ptr < node->end;
+    // the (aligned) head of a full node is at or just past its end
+    return ptr >= node->d  && ptr <= aa_mem_region_alignptr(node->end);
 }
 
 
@@ -147,10 +148,10 @@ AA_API void aa_mem_region_pop( aa_mem_region_t *reg, void *ptr ) {
             n += (p->end - p->d);
             p = aa_mem_region_node_free( p );
         }
-        assert( !p || (ptr8 >= p->d && ptr8 <= p->end));
+        assert( !p || aa_mem_region_pop_in_node(ptr8, p) );
         // now realloc a replacement node
         // how much of the last chunk is now unused
-        ptrdiff_t popsize = p ? (p->end  - ptr8) : 0;
+        ptrdiff_t popsize = (p && ptr8 < p->end) ? (p->end  - ptr8) : 0;
         assert( ( !p || ptr8 > p->d ) ?
                 // popped in middle of chunk, keep it
                 (!p || popsize < p->end - p->d ) :
-- 
2.43.0


From 634044ae03b832e250c65b263a9fc11567539bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:51 +0000
Subject: [PATCH 05/80] fix: aa_mem_region_tmprealloc does not copy from a
 freed chunk

When the top chunk held only the temporary buffer, growing freed that
chunk before its contents were copied; and when the aligned head lay past
the chunk end the copied length underflowed.
---
 src/mem.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/mem.c b/src/mem.c
index 8b557ec..83e2609 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -166,16 +166,20 @@ AA_API void aa_mem_region_pop( aa_mem_region_t *reg, void *ptr ) {
     }
 }
 
-static void aa_mem_region_grow( aa_mem_region_t *reg, size_t size ) {
+/// Add a new top node.  The first `keep' bytes at the head are copied over.
+static void aa_mem_region_grow( aa_mem_region_t *reg, size_t size, size_t keep ) {
     size_t nsize = AA_MAX(2*(size_t)(reg->node->end - reg->node->d),
                           size + AA_MEMREG_ALIGN);
     // this growth strategy creates worst-case O(n) memory waste
-    reg->node =
-        aa_mem_region_node_alloc( nsize,
-                              /* free unused chunk */
-                              (aa_mem_region_alignptr(reg->node->d) == reg->head) ?
-                              aa_mem_region_node_free(reg->node) : reg->node );
+    struct aa_mem_region_node *old = reg->node;
+    uint8_t *old_head = reg->head;
+    reg->node = aa_mem_region_node_alloc( nsize, old );
     aa_mem_region_align(reg, reg->node->d);
+    if( keep ) memcpy( reg->head, old_head, keep );
+    /* free unused chunk */
+    if( aa_mem_region_alignptr(old->d) == old_head ) {
+        reg->node->next = aa_mem_region_node_free(old);
+    }
     assert( aa_mem_region_freesize(reg) >= size );
     assert( ! ((uintptr_t)reg->head%16) );
 }
@@ -183,7 +187,7 @@ static void aa_mem_region_grow( aa_mem_region_t *reg, size_t size ) {
 void *aa_mem_region_tmpalloc( aa_mem_region_t *region, size_t size ) {
     if( region->head + size > region->node->end ) {
         // slow path
-        aa_mem_region_grow(region, size );
+        aa_mem_region_grow(region, size, 0 );
     }
     // fast path
     return region->head;
@@ -191,22 +195,18 @@ void *aa_mem_region_tmpalloc( aa_mem_region_t *region, size_t size ) {
 
 AA_API void *aa_mem_region_tmprealloc( aa_mem_region_t *region, size_t size )
 {
-    void *old_ptr = region->head;
-    size_t old_size = (size_t)(region->node->end - region->head);
-    void *new_ptr = aa_mem_region_tmpalloc(region, size);
-
-    if( old_ptr != new_ptr ) {
-        memcpy( new_ptr, old_ptr, old_size );
+    size_t old_size = aa_mem_region_freesize(region);
+    if( size > old_size ) {
+        aa_mem_region_grow(region, size, old_size);
     }
-
-    return new_ptr;
+    return region->head;
 }
 
 void *aa_mem_region_alloc( aa_mem_region_t *region, size_t size ) {
     uint8_t *nhead = region->head + size;
     if( nhead > region->node->end ) {
         // slow path
-        aa_mem_region_grow(region, size);
+        aa_mem_region_grow(region, size, 0);
         nhead = region->head + size;
     }
     // fast path
-- 
2.43.0


From 9a1089386644590c7f112977230452007d674af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:25 +0000
Subject: [PATCH 06/80] fix: aa_tf_qslerpchaindiff computes the derivative of
 slerp

d(theta) was taken as (d cos(theta))/cos(theta) and the sign of the
shorter-arc flip was ignored; at theta=0 the derivative was zeroed.
---
 src/tf/quat_ord.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index f3b0599..12b1aa7 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -896,7 +896,9 @@ AA_API void aa_tf_qslerpchaindiff(
     double theta, d1, d2;
     aa_tf_qslerp_param(q1, q2, &theta, &d1, &d2);
     if( aa_feq(theta, 0, 0) ) {
-        AA_MEM_ZERO(dq, 4);
+        /* q1 and q2 are equal, up to sign */
+        const double u2 = (aa_tf_qdot(q1,q2) < 0) ? -u : u;
+        FOR_QUAT(i) dq[i] = (1-u)*dq1[i] + u2*dq2[i];
         AA_MEM_CPY(q, q1, 4);
         return;
     }
@@ -907,8 +909,9 @@ AA_API void aa_tf_qslerpchaindiff(
     const double sb = sin(u*theta);
     const double cb = cos(u*theta);
 
-    const double dtheta_c = aa_tf_qdot(q1, dq2) + aa_tf_qdot(dq1, q2);
-    const double dtheta =  dtheta_c / c;
+    /* cos(theta) = +/- q1*q2, with the sign of d2 */
+    const double dtheta = -( aa_tf_qdot(q1, dq2) + aa_tf_qdot(dq1, q2) ) / d2;
+    const double dtheta_c = dtheta * c;
 
     const double a = sa / d1;
     const double b = sb / d2;
-- 
2.43.0


From 641afdafae96209377dcfbd41853a9e6a1bb7515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:11 +0000
Subject: [PATCH 07/80] fix: aa_tf_vecs2quat is accurate for small, nearly
 parallel and nearly antiparallel vectors

The degenerate test was not scale invariant, used |u x v|^2 as the sine
and rotated about an arbitrary perpendicular axis, so short vectors got a
wrong rotation and nearly parallel ones lost half of their digits.
---
 src/tf/quat_ord.c | 35 +++++++----------------------------
 1 file changed, 7 insertions(+), 28 deletions(-)

diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index 12b1aa7..9422b50 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -966,7 +966,8 @@ aa_tf_vecs2quat( const double u[AA_RESTRICT 3],
 
     double cc = aa_tf_vdot(&q[AA_TF_QUAT_X],&q[AA_TF_QUAT_X]);
 
-    if( cc / nuv < sqrt_epsilon ) {
+    if( uv < 0 && cc <= DBL_EPSILON*DBL_EPSILON * nu*nv ) {
+        /* Antiparallel: rotate by pi about any perpendicular axis */
 
         /* Find a differently-pointed vector */
         double fx=fabs(u[0]);
@@ -981,33 +982,11 @@ aa_tf_vecs2quat( const double u[AA_RESTRICT 3],
             (fy > fz ? a_z : a_y) :
             (fx > fz ? a_z : a_x);
 
-        /* Get the quaternion axis */
-        /* TODO: verify axis direction */
-        double au[3];
-        double av[3];
-        aa_tf_cross( u, ar, au);
-        if( uv > 0 ) {
-            aa_tf_cross( v, ar, av);
-        } else {
-            aa_tf_cross( ar, v, av);
-        }
-        /* average axis from u and v */
-        FOR_VEC(i) q[AA_TF_QUAT_X+i] = au[i]+av[i];
-
-        /* Get the euclidean angle */
-        double theta = atan2(cc,uv); /* euclidean angle */
-        double qtheta = theta/2;
-
-        double s = sin( qtheta );
-        double m = s / sqrt(aa_tf_vdot(&q[AA_TF_QUAT_X],&q[AA_TF_QUAT_X]));
-
-        /* scale axis by sign / magnitude */
-        FOR_VEC(i) q[AA_TF_QUAT_X+i] *= m;
-
-        q[AA_TF_QUAT_W] = cos(qtheta);
-
+        aa_tf_cross( u, ar, &q[AA_TF_QUAT_X] );
+        q[AA_TF_QUAT_W] = 0;
     } else {
-        q[AA_TF_QUAT_W] = uv + nuv;
-        aa_tf_qnormalize(q);
+        /* nuv + uv, avoiding cancellation for nearly antiparallel vectors */
+        q[AA_TF_QUAT_W] = uv < 0 ? cc / (nuv - uv) : nuv + uv;
     }
+    aa_tf_qnormalize(q);
 }
-- 
2.43.0


From d4b9e2da60590ead10931bb2f8b6bb3746fb96e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:15 +0000
Subject: [PATCH 08/80] fix: aa_tf_duqu_vnorm uses only the vector parts in the
 dual component

---
 src/tf/quat_duqu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tf/quat_duqu.c b/src/tf/quat_duqu.c
index 71deacf..5092029 100644
--- a/src/tf/quat_duqu.c
+++ b/src/tf/quat_duqu.c
@@ -181,7 +181,7 @@ aa_tf_duqu_vnorm( const double S[AA_RESTRICT 8],
                  double * AA_RESTRICT nreal, double * AA_RESTRICT  ndual )
 {
     *nreal = aa_tf_qvnorm(S+AA_TF_DUQU_REAL);
-    *ndual = aa_tf_qdot(S+AA_TF_DUQU_REAL_X, S+AA_TF_DUQU_DUAL_X) / *nreal;
+    *ndual = aa_tf_vdot(S+AA_TF_DUQU_REAL_XYZ, S+AA_TF_DUQU_DUAL_XYZ) / *nreal;
 }
 
 AA_API void
-- 
2.43.0


From 8ab4a8adb1ab9478d881d9e4dd040857049331cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:56 +0000
Subject: [PATCH 09/80] fix: keep an empty memory region chunk while older
 chunks hold allocations

---
 src/mem.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mem.c b/src/mem.c
index 83e2609..b5d94cf 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -176,8 +176,10 @@ static void aa_mem_region_grow( aa_mem_region_t *reg, size_t size, size_t keep )
     reg->node = aa_mem_region_node_alloc( nsize, old );
     aa_mem_region_align(reg, reg->node->d);
     if( keep ) memcpy( reg->head, old_head, keep );
-    /* free unused chunk */
-    if( aa_mem_region_alignptr(old->d) == old_head ) {
+    /* Free unused chunk, unless there are allocations below it: popping a
+     * pointer to its head must not look for that pointer in, and free, the
+     * older chunks. */
+    if( NULL == old->next && aa_mem_region_alignptr(old->d) == old_head ) {
         reg->node->next = aa_mem_region_node_free(old);
     }
     assert( aa_mem_region_freesize(reg) >= size );
-- 
2.43.0


From fca497ed6d14bf2d3ce0e80f0a3f40fa60031b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:59 +0000
Subject: [PATCH 10/80] fix: aa_io_getline lost a line that exactly filled the
 region's chunk

---
 src/io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 722c6db..b2745f6 100644
--- a/src/io.c
+++ b/src/io.c
@@ -68,7 +68,9 @@ char *aa_io_getline( FILE *fin, struct aa_mem_region *reg )
             return str;
         }
         n++;
-        char *ptr = (char*)aa_mem_region_tmprealloc(reg, n);
+        // keep room for the terminator: aa_mem_region_alloc() does not
+        // preserve the contents when it must add a chunk
+        char *ptr = (char*)aa_mem_region_tmprealloc(reg, n+1);
         ptr[n-1] = (char)i;
     } while(1);
 }
-- 
2.43.0


From 0042d3ba1d0006803b45d5cb0d3d289a936e9f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:59 +0000
Subject: [PATCH 11/80] fix: aa_io_fread_matrix_heap could grow its buffer by
 too little

---
 src/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index b2745f6..b8cc641 100644
--- a/src/io.c
+++ b/src/io.c
@@ -193,7 +193,7 @@ ssize_t aa_io_fread_matrix_heap( FILE *fin, size_t n,
 
         // maybe realloc
         if( *elts < read_elts + n ) {
-            *elts *= 2;
+            *elts = AA_MAX( 2 * *elts, read_elts + n );
             *A = (double*) realloc(*A, *elts * sizeof(double) );
         }
 
-- 
2.43.0


From 98f3dfa77f7da281fe8a1f390668f5a688f9c70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:30 +0000
Subject: [PATCH 12/80] fix: aa_la_quadterp_dx is the derivative of
 aa_la_quadterp

---
 src/la.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/la.c b/src/la.c
index 6b41f8c..37255ac 100644
--- a/src/la.c
+++ b/src/la.c
@@ -482,7 +482,7 @@ AA_API void aa_la_quadterp_dx( size_t n,
     double M12 = -(t1+t0)/((t2-t0)*(t2-t1));
     double M22 = 1/((t2-t0)*(t2-t1));
 
-    double ti_2 = ti/2;
+    double ti_2 = 2*ti;
 
     for( size_t i = 0; i < n; i ++ ) {
         double b = M10*X0[i] + M11*X1[i] + M12*X2[i];
-- 
2.43.0


From 5a2949e0dcf8e578976715dddc20f44b3bb5242f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:30 +0000
Subject: [PATCH 13/80] fix: aa_la_trace sums diagonal entries, not their
 absolute values

---
 src/la.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/la.c b/src/la.c
index 37255ac..0bf724a 100644
--- a/src/la.c
+++ b/src/la.c
@@ -187,7 +187,10 @@ AA_API void aa_la_transpose( size_t n, double *A  ) {
 }
 
 double aa_la_trace( size_t n, const double *A ) {
-    return cblas_dasum( (int)n, A, (int)(n+1) );
+    double a = 0;
+    for( size_t i = 0; i < n; i ++ )
+        a += AA_MATREF(A,n,i,i);
+    return a;
 }
 
 double aa_la_wdot( size_t n,
-- 
2.43.0


From b0d45c36b2a02d518826230439f97fd3927cf844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:30 +0000
Subject: [PATCH 14/80] fix: aa_dmat_inc stays within a square block of a
 larger matrix

---
 src/mat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mat.c b/src/mat.c
index fc75de6..9233732 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -504,7 +504,7 @@ aa_dmat_inc( struct aa_dmat *A, double alpha )
     size_t m=A->rows, n=A->cols, ld=A->ld;
     double *x = A->data;
 
-    if( m == n ) {
+    if( m == ld ) {
         s_inc(m*n, alpha, x, 1);
     } else {
         for( double *e = x + n*ld; x < e; x+=ld ) {
-- 
2.43.0


From c167b2f0af700dcc332c2ade0dffda933b5a9b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:30 +0000
Subject: [PATCH 15/80] fix: aa_dmat_gemm uses the dimensions of the transposed
 operands

---
 src/mat.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mat.c b/src/mat.c
index 9233732..329735d 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -396,9 +396,15 @@ aa_dmat_gemm( AA_CBLAS_TRANSPOSE transA, AA_CBLAS_TRANSPOSE transB,
               const struct aa_dmat *B,
               double beta, struct aa_dmat *C )
 {
-    aa_la_check_size( A->rows, C->rows );
-    aa_la_check_size( A->cols, B->rows );
-    aa_la_check_size( B->cols, C->cols );
+    /* dimensions of op(A) and op(B) */
+    const size_t m  = (CblasNoTrans == transA) ? A->rows : A->cols;
+    const size_t ka = (CblasNoTrans == transA) ? A->cols : A->rows;
+    const size_t kb = (CblasNoTrans == transB) ? B->rows : B->cols;
+    const size_t n  = (CblasNoTrans == transB) ? B->cols : B->rows;
+
+    aa_la_check_size( m, C->rows );
+    aa_la_check_size( ka, kb );
+    aa_la_check_size( n, C->cols );
 
     assert( A->rows <= A->ld );
     assert( B->rows <= B->ld );
@@ -406,7 +412,7 @@ aa_dmat_gemm( AA_CBLAS_TRANSPOSE transA, AA_CBLAS_TRANSPOSE transB,
 
     cblas_dgemm( CblasColMajor,
                  transA, transB,
-                 MAT_ROWS(A), MAT_COLS(B), MAT_COLS(A),
+                 (int)m, (int)n, (int)ka,
                  alpha, AA_MAT_ARGS(A),
                  AA_MAT_ARGS(B),
                  beta, AA_MAT_ARGS(C) );
-- 
2.43.0


From 7f49bc4767376be089c896f36da69b77a8d24cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:30 +0000
Subject: [PATCH 16/80] fix: aa_dmat_pinv and aa_dmat_dzdpinv honor the leading
 dimension of the result

---
 src/mat.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mat.c b/src/mat.c
index 329735d..5b460a4 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -652,7 +652,7 @@ aa_dmat_pinv( const struct aa_dmat *A, double tol, struct aa_dmat *As )
         cblas_dger( CblasColMajor, ni, mi, 1/S[i],
                     Vt + i, ni,
                     U + m*i, 1,
-                    Asd, ni
+                    Asd, (int)As->ld
             );
     }
 
@@ -839,7 +839,7 @@ aa_dmat_dzdpinv(  const struct aa_dmat *A, double s_min, struct aa_dmat *As)
         cblas_dger( CblasColMajor, ni, mi, 1/S[i],
                     Vt + i, ni,
                     U + m*i, 1,
-                    Asd, ni
+                    Asd, (int)As->ld
             );
     }
 
@@ -849,7 +849,7 @@ aa_dmat_dzdpinv(  const struct aa_dmat *A, double s_min, struct aa_dmat *As)
         cblas_dger( CblasColMajor, ni, mi, S[i]/s2,
                     Vt + i, ni,
                     U + m*i, 1,
-                    Asd, ni
+                    Asd, (int)As->ld
             );
     }
 
-- 
2.43.0


From 308a2185fd40be79a2bfbad8766b0baa77ed05ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:30 +0000
Subject: [PATCH 17/80] fix: QR, SVD, and eigen-decomposition honor the leading
 dimension of A

---
 src/la_impl.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 5d8fcd2..a4807bb 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -506,14 +506,14 @@ AA_API int AA_NAME(la,qr)
         AA_CLA_NAME(laset)('L', mi, ni,
                            0, 0,
                            R, (int)ldr );
-        AA_CLA_NAME(lacpy)('U', mn, ni, Ap, (int)lda,
+        AA_CLA_NAME(lacpy)('U', mn, ni, Ap, mi,
                            R, (int)ldr);
 
     }
 
     if( Q ) {
         /* Fill Q */
-        AA_CLA_NAME(lacpy)('L', mi, ni, Ap, (int)lda,
+        AA_CLA_NAME(lacpy)('L', mi, ni, Ap, mi,
                            Q, (int)ldq);
         LA_WORK( reg, work, lwork,
                  AA_CLA_NAME(orgqr)(mi, mi, mn,
@@ -544,7 +544,7 @@ AA_API int AA_NAME(la,svd)
         int *iwork = AA_MEM_REGION_NEW_N(reg, int, 8*mn);
         LA_WORK( reg, work, lwork,
                  info = AA_CLA_NAME(gesdd) (jobz, mi, ni,
-                                            Ap, (int)lda,
+                                            Ap, mi,
                                             S, U, (int)ldu,
                                             Vt, (int)ldvt,
                                             work, lwork, iwork) );
@@ -577,7 +577,7 @@ AA_API int AA_NAME(la,eev)
 {
     int info = -1;
     int ni = (int)n;
-    int ldai = (int)lda;
+    int ldai = ni; /* leading dimension of the copy */
     struct aa_mem_region *reg = aa_mem_region_local_get();
 
 
-- 
2.43.0


From 8286a25a97f3a8ceb17a1844ff75dbf9174430fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:30 +0000
Subject: [PATCH 18/80] fix: column covariance honors the leading dimension of
 the result

---
 src/la_impl.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index a4807bb..7b40e7a 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -422,13 +422,15 @@ void AA_NAME(la,colcov)
                             (int)m, 1.0, t, 1,
                             E, (int)lde );
     }
-    AA_CBLAS_NAME(scal) ( (int)(m*m),
-                          (AA_TYPE)1.0/(AA_TYPE)(n-1),
-                          E, 1 );
+    for( size_t j = 0; j < m*lde; j+=lde ) {
+        AA_CBLAS_NAME(scal) ( (int)m,
+                              (AA_TYPE)1.0/(AA_TYPE)(n-1),
+                              E+j, 1 );
+    }
     /* fill lower half */
     for( size_t i = 0; i < m; i ++ ) {
         for( size_t j = i+1; j < m; j ++ ) {
-            AA_MATREF(E, m, j, i) = AA_MATREF(E, m, i, j);
+            AA_MATREF(E, lde, j, i) = AA_MATREF(E, lde, i, j);
         }
     }
 }
-- 
2.43.0


From d2fac4045d54c173f163dbc5ebb71d483a6d4d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:30 +0000
Subject: [PATCH 19/80] fix: Hungarian algorithm terminates when no cost is
 positive

---
 src/la_impl.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 7b40e7a..9e8f71a 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -77,8 +77,6 @@ static void AA_NAME(la,opt_hungarian) (
     ssize_t *mask = (ssize_t*)aa_mem_region_local_alloc(sizeof(ssize_t)*n*n);      // length n*n
     ssize_t *path = (ssize_t*)aa_mem_region_local_alloc(sizeof(ssize_t)*2*n*n);    // length 2*n*n
 
-    const AA_TYPE max_cost =
-        AA_NAME(la,mat_max)(n,n,A,lda,NULL,NULL);
     //int mask[n*n];
     size_t zerorc[2] = {0};
     memset(mask,0,n*n*sizeof(mask[0]));
@@ -256,7 +254,7 @@ static void AA_NAME(la,opt_hungarian) (
         case 6: ;
             assert( 6 == step );
             // find smallest uncovered value in cost
-            AA_TYPE minval = max_cost;
+            AA_TYPE minval = (AA_TYPE)HUGE_VAL;
             for( size_t j = 0; j < n; j ++ ) {
                 for( size_t i = 0; i < n; i ++ ) {
                     if( 0 == row_cover[i] &&
-- 
2.43.0


From 23ed8adb466022be545c91abedcefc38e443a50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:30 +0000
Subject: [PATCH 20/80] fix: single precision median compares single precision
 elements

---
 src/la_impl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 9e8f71a..78181c1 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -628,8 +628,8 @@ AA_API int AA_NAME(la,sysv)
 
 int AA_NAME(la,compar)( const void *_a, const void *_b )
 {
-    double a = *(double*)_a;
-    double b = *(double*)_b;
+    AA_TYPE a = *(AA_TYPE*)_a;
+    AA_TYPE b = *(AA_TYPE*)_b;
     if( a < b ) return -1;
     if( a > b ) return 1;
     return 0;
-- 
2.43.0


From a9cad4ccaedc1d9617a42019289360e90a9214e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:04 +0000
Subject: [PATCH 21/80] fix: Dormand-Prince evaluates stage four at 8/9 of the
 step

---
 src/sigsys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigsys.c b/src/sigsys.c
index e592b72..82db3d6 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -481,7 +481,7 @@ void aa_odestep_dorpri45( size_t n, aa_sys_fun sys, const void *cx,
         {35.0/384,       11.0/84.0,     500.0/1113,    125.0/192,  -2187.0/6784}
     };
 
-    static const double c[] = {1.0/5, 3.0/10, 4.0/5, 8/9, 1, 1};
+    static const double c[] = {1.0/5, 3.0/10, 4.0/5, 8.0/9, 1, 1};
 
     // k0 already has dx at x0
 
-- 
2.43.0


From 8777c495515df6a559ab527b345ac48da480ddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:04 +0000
Subject: [PATCH 22/80] fix: circular standard deviation uses the mean
 resultant length, not its square

---
 src/math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math.c b/src/math.c
index e4f6df7..4514a2f 100644
--- a/src/math.c
+++ b/src/math.c
@@ -132,7 +132,7 @@ AA_API double aa_stat_circ_std( size_t n, const double *x) {
     as = as / (double)n;
     ac = ac / (double)n;
     double r = (as*as + ac*ac);
-    return sqrt( -2 * log(r) );
+    return sqrt( -log(r) );
 }
 
 
@@ -198,7 +198,7 @@ AA_API size_t aa_stat_excluded_circ_mean_std( size_t n, const double *x,
         ac /= (double)j;
         mu = atan2(as,ac);
         double r = (as*as + ac*ac);
-        sigma = sqrt( -2 * log(r) );
+        sigma = sqrt( -log(r) );
     } while(jj != j && ++iter < max_iterations ) ;
     *pmu = mu;
     *psigma = sigma;
-- 
2.43.0


From 0c68401689148532692ff20d73fa2df2dc422bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:04 +0000
Subject: [PATCH 23/80] fix: aa_ode_sol advances time when using adaptive steps

---
 src/sigsys.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigsys.c b/src/sigsys.c
index 82db3d6..3295e1d 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -655,6 +655,7 @@ AA_API int aa_ode_sol( enum aa_ode_integrator integrator,
                                      t, dt,
                                      px0, k, px1, px2 );
                 double err = aa_la_ssd( n, px1, px2 );
+                double dt_step = dt; // step just taken
                 // adapt the step size
                 if( err > opts->adapt_tol_dec ) {
                     dt *= opts->adapt_factor_dec;
@@ -662,6 +663,7 @@ AA_API int aa_ode_sol( enum aa_ode_integrator integrator,
                 } else if ( err < opts->adapt_tol_inc ) {
                     dt *= opts->adapt_factor_inc;
                 }
+                t += dt_step;
                 break;
             }
 
-- 
2.43.0


From 7ddea4c62f277d4c297e7ad5c062444e858b600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:04 +0000
Subject: [PATCH 24/80] fix: aa_ode_sol passes on the derivative at the
 accepted state

---
 src/sigsys.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sigsys.c b/src/sigsys.c
index 3295e1d..27e66f2 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -667,6 +667,10 @@ AA_API int aa_ode_sol( enum aa_ode_integrator integrator,
                 break;
             }
 
+            /* Derivative at the new state.  The last column of k is an
+             * intermediate stage, not the derivative at px2. */
+            sys( sys_cx, t, px2, kn );
+
             /* Check if complete */
             if( (check_result = check( check_cx, t, px2, kn)) ) {
                 AA_MEM_CPY(x1, px2, n);
-- 
2.43.0


From c34df48c6d810f5d05036f8c7a3017542f7722ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:45 +0000
Subject: [PATCH 25/80] fix: Hungarian algorithm restarts the column search
 along the alternating path

---
 src/la_impl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/la_impl.c b/src/la_impl.c
index 78181c1..f6ad8cf 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -225,6 +225,7 @@ static void AA_NAME(la,opt_hungarian) (
                                     break;
                                 }
                             }
+                            break; // search the new column from its first row
                         }
                     }
                 }
-- 
2.43.0


From 9cceb9ed4f95c0e36c6af1c424ec1a82bc9fd89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:45 +0000
Subject: [PATCH 26/80] fix: Cash-Karp step uses the weight of the right stage
 and returns the named orders

---
 src/sigsys.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sigsys.c b/src/sigsys.c
index 27e66f2..891bdbe 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -435,15 +435,16 @@ void aa_odestep_rkck45( size_t n, aa_sys_fun sys, const void *cx,
     // output
     memcpy(x4,x0,sizeof(double)*n);
     memcpy(x5,x0,sizeof(double)*n);
-    static const double v1[] = {37.0/378, 512.0/1771, 250.0/621, 125.0/594};
+    // second column of k holds the sixth stage
+    static const double v1[] = { 2825.0/27648, 1.0/4, 18575.0/48384, 13525.0/55296, 277.0/14336};
     cblas_dgemv( CblasColMajor, CblasNoTrans,
-                 (int)n, (int)4,
+                 (int)n, (int)5,
                  dt, k, (int)n,
                  v1, 1,
                  1, x4, 1 );
-    static const double v2[] = { 2825.0/27648, 277.0/14336, 18575.0/48384, 13525.0/55296, 1.0/4};
+    static const double v2[] = {37.0/378, 512.0/1771, 250.0/621, 125.0/594};
     cblas_dgemv( CblasColMajor, CblasNoTrans,
-                 (int)n, (int)5,
+                 (int)n, (int)4,
                  dt, k, (int)n,
                  v2, 1,
                  1, x5, 1 );
-- 
2.43.0


From c4120a14523e946fc47c7b737f662221fd15434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 27/80] fix: scene frames accept a NULL rotation or translation

---
 src/rx/scenegraph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index ba1a517..684eb43 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -69,8 +69,8 @@ SceneFrame::SceneFrame(
 {
     AA_MEM_CPY(E+AA_TF_QUTR_Q, q ? q : aa_tf_quat_ident, 4);
     AA_MEM_CPY(E+AA_TF_QUTR_V, v ? v : aa_tf_vec_ident, 3);
-    aa_tf_quat2rotmat(q,R);
-    aa_tf_qv2duqu(q,v,S);
+    aa_tf_quat2rotmat(E+AA_TF_QUTR_Q,R);
+    aa_tf_qv2duqu(E+AA_TF_QUTR_Q,E+AA_TF_QUTR_V,S);
 }
 
 SceneFrame::~SceneFrame( )
-- 
2.43.0


From aeaf774b262fd0f3a49fe2d139baa4b2b3b830b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 28/80] fix: fixed frame transformation matrix has three
 translation elements

---
 src/rx/scenegraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 684eb43..4a2757c 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -164,7 +164,7 @@ void SceneFrameFixed::tfmat_rel( const double *q, double _T[12] )
 {
     (void)q;
     AA_MEM_CPY(_T + AA_TF_TFMAT_R, this->R, 9);
-    AA_MEM_CPY(_T + AA_TF_TFMAT_V, this->E + AA_TF_QUTR_T, 9);
+    AA_MEM_CPY(_T + AA_TF_TFMAT_V, this->E + AA_TF_QUTR_T, 3);
 }
 
 void SceneFrameFixed::duqu_rel( const double *q, double _S[8] )
-- 
2.43.0


From 4423f9103f9fed50fbb293efe3d1ddb9a410c819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 29/80] fix: prismatic joint matrix and dual quaternion match
 its quaternion-translation

---
 src/rx/scenegraph.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 4a2757c..ac73e56 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -192,21 +192,26 @@ void SceneFramePrismatic::tf_rel( const double *q, double _E[7] )
 void SceneFramePrismatic::tfmat_rel( const double *q, double _T[12] )
 {
     double qo = q[this->config_index] + this->offset;
+    double x[3];
     AA_MEM_CPY( _T+AA_TF_TFMAT_R, R, 9 );
 
+    // the axis is in the coordinates of this frame
+    aa_tf_rotmat_rot( R, this->axis, x );
     for( size_t i = 0; i < 3; i ++ ) {
-        _T[AA_TF_TFMAT_V+i] = E[AA_TF_QUTR_V+i] + qo*this->axis[i];
+        _T[AA_TF_TFMAT_V+i] = E[AA_TF_QUTR_V+i] + qo*x[i];
     }
 }
 
 void SceneFramePrismatic::duqu_rel( const double *q, double _S[8] )
 {
     double qo = q[this->config_index] + this->offset;
-    double v[3];
+    double x[3], v[3];
+    // the axis is in the coordinates of this frame
+    aa_tf_qrot( E+AA_TF_QUTR_Q, this->axis, x );
     for( size_t i = 0; i < 3; i ++ ) {
-        v[i] = E[AA_TF_QUTR_V+i] + qo*this->axis[i];
+        v[i] = E[AA_TF_QUTR_V+i] + qo*x[i];
     }
-    aa_tf_qv2duqu(E+AA_TF_QUTR_Q,v,S);
+    aa_tf_qv2duqu(E+AA_TF_QUTR_Q,v,_S);
 }
 
 void SceneFrameRevolute::tf_rel( const double *q, double _E[7] )
-- 
2.43.0


From bb70c5963d4ea82ab54f0bc5a347d41ace78e1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 30/80] fix: collect the frames of multiple chains

---
 src/rx/scene_sub.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/scene_sub.cpp b/src/rx/scene_sub.cpp
index 3edcb76..248b559 100644
--- a/src/rx/scene_sub.cpp
+++ b/src/rx/scene_sub.cpp
@@ -112,7 +112,7 @@ aa_rx_sg_chain_multiple_frames( const struct aa_rx_sg *sg,
     for(size_t i=0; i < n_tips; i ++){
 	aa_rx_frame_id tip = tips[i];
 	while( tip !=root && tip != AA_RX_FRAME_ROOT ){
-	    if (frames.find(tip) == frames.end()) break;
+	    if (frames.find(tip) != frames.end()) break;
 	    enum aa_rx_frame_type ft = aa_rx_sg_frame_type( sg, tip );
 	    switch(ft) {
 	    case AA_RX_FRAME_FIXED:
-- 
2.43.0


From bec9702833c025ec24d4f00b89f46e843411645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 31/80] fix: multiple chain sub-scenegraph records its
 end-effectors

---
 src/rx/scene_kin.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rx/scene_kin.c b/src/rx/scene_kin.c
index d52f811..5731417 100644
--- a/src/rx/scene_kin.c
+++ b/src/rx/scene_kin.c
@@ -368,6 +368,11 @@ aa_rx_sg_multiple_chain_create( const struct aa_rx_sg *sg,
     aa_rx_sg_chain_configs( sg, ssg->frame_count, ssg->frames,
                             ssg->config_count, ssg->configs );
 
+    ssg->ees = AA_MEM_DUP(aa_rx_frame_id, tips, n_tips);
+    ssg->ee_count = n_tips;
+
+    free(tmp_arr);
+
     return ssg;
 }
 
-- 
2.43.0


From 9e383dc51412c3984140eff949bab06490e3825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 32/80] fix: aa_rx_sg_config_name checks against the number of
 configurations

---
 src/rx/sg_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index ed58a4b..b9844d7 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -140,7 +140,7 @@ aa_rx_sg_config_name (
         case AA_RX_CONFIG_MULTI: return "MULTI";
         default:
             if (id < 0 ||
-                id >= (aa_rx_config_id)aa_rx_sg_frame_count(scene_graph)) {
+                id >= (aa_rx_config_id)aa_rx_sg_config_count(scene_graph)) {
                 return "NONE";
             }
             return scene_graph->sg->config_rmap[(size_t)id];
-- 
2.43.0


From bf5730e0f464017376efb510f77b184f05ad5443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 33/80] fix: initialize all fields of the scene graph

---
 src/rx/scenegraph.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index ac73e56..29e1089 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -272,8 +272,12 @@ void SceneFrameRevolute::tfmat_rel( const double *q, double _T[12] )
 // }
 
 SceneGraph::SceneGraph()
-    : dirty_indices(0),
-      destructor(NULL)
+    : config_size(0),
+      destructor(NULL),
+      destructor_context(NULL),
+      dirty_indices(0),
+      dirty_collision(0),
+      dirty_gl(0)
 {}
 
 SceneGraph::~SceneGraph()
-- 
2.43.0


From 8c2c2d6e89f76577028c438211b0e7fae0f82ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 34/80] fix: aa_rx_fk_get_abs_qutr rejects the frame id one
 past the end

---
 src/rx/sg_api.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index b9844d7..3b08ac7 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -896,8 +896,8 @@ aa_rx_fk_ref(const struct aa_rx_fk *fk, aa_rx_frame_id id)
 AA_API void
 aa_rx_fk_get_abs_qutr(const struct aa_rx_fk *fk, aa_rx_frame_id id, double E[7] )
 {
-    if( id < 0 || (size_t)id > aa_rx_fk_cnt(fk) ) {
-        fprintf(stderr, "ERROR: Invalid frame id %d\n", id);
+    if( id < 0 || (size_t)id >= aa_rx_fk_cnt(fk) ) {
+        fprintf(stderr, "ERROR: Invalid frame id %ld\n", id);
         abort();
         exit(EXIT_FAILURE);
     }
-- 
2.43.0


From f838f436e43efa81db920947b300966faa379b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 35/80] fix: reparenting a frame updates all representations of
 its transform

---
 src/rx/sg_api.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 3b08ac7..624af07 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -733,6 +733,8 @@ AA_API void aa_rx_sg_reparent_name (const struct aa_rx_sg *scene_graph,
                   : new_parent );
 
     AA_MEM_CPY(f->E, E1, 7);
+    aa_tf_quat2rotmat(f->E + AA_TF_QUTR_Q, f->R);
+    aa_tf_qv2duqu(f->E + AA_TF_QUTR_Q, f->E + AA_TF_QUTR_V, f->S);
 
     scene_graph->sg->dirty_indices = 1;
 }
-- 
2.43.0


From bf7b9c2b3b447ea5b42e4fd05cd9c5e1fe2d4a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 36/80] fix: aa_rx_fk_all honors the increment of the
 configuration vector

---
 src/rx/sg_api.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 624af07..0863a0d 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -966,13 +966,22 @@ aa_rx_fk_all( struct aa_rx_fk *fk,
 
     amino::SceneGraph *sg = scenegraph->sg;
 
+    // the frames expect a contiguous configuration
+    double q_copy[1 == q->inc ? 1 : q->len + 1];
+    const double *q_data = q->data;
+    if( 1 != q->inc ) {
+        struct aa_dvec v_copy = AA_DVEC_INIT(q->len, q_copy, 1);
+        aa_dvec_copy(q, &v_copy);
+        q_data = q_copy;
+    }
+
     double E_rel[AA_RX_TF_LEN], *E_abs = fk->TF_abs;
     for( size_t i_frame = 0;
          i_frame < sg->frames.size();
          i_frame++, E_abs += AA_RX_FK_LD )
     {
         amino::SceneFrame *f = sg->frames[i_frame];
-        f->tf_rel( q->data, E_rel );
+        f->tf_rel( q_data, E_rel );
         aa_rx_fk_set_rel(fk,i_frame,E_rel);
     }
 }
-- 
2.43.0


From 972aff0846f1919fc07e83c1ff2fdf228c1ed29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 37/80] fix: limits set after aa_rx_sg_init() take effect

---
 src/rx/sg_api.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 0863a0d..9b09375 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -554,6 +554,11 @@ get_limits( struct aa_rx_sg *scenegraph,
     if( NULL == l ) {
         l = AA_NEW0(struct aa_rx_config_limits);
         sg->limits_map[config_name] = l;
+        /* keep existing indices current */
+        auto itr = sg->config_map.find(config_name);
+        if( !sg->dirty_indices && sg->config_map.end() != itr ) {
+            sg->limits[(size_t)itr->second] = l;
+        }
     }
 
     return l;
-- 
2.43.0


From 0fa99de5e3d3087b8e8318565ab51fd86a9c9046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:28 +0000
Subject: [PATCH 38/80] fix: aa_rx_sg_copy copies inertial parameters and
 allocates limits as they are freed

---
 src/rx/sg_api.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 9b09375..55c685c 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -785,13 +785,17 @@ AA_API  struct aa_rx_sg *  aa_rx_sg_copy( const struct aa_rx_sg * orig){
             } break;
         }
         assert(f_new);
+        if( f->inertial ) {
+            f_new->inertial = AA_NEW(struct aa_rx_inertial);
+            *f_new->inertial = *f->inertial;
+        }
         dest->sg->add(f_new);
     }
 
     // set limits
     for( auto &pair : orig->sg->limits_map ) {
         if ( pair.second ) {
-            aa_rx_config_limits * nl = new aa_rx_config_limits();
+            aa_rx_config_limits * nl = AA_NEW(struct aa_rx_config_limits);
             *nl = *pair.second;
             dest->sg->limits_map[pair.first] = nl;
         }else{
-- 
2.43.0


From f9694fff1aa7419f859d8b9b77ab4b5aa9e20e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 39/80] fix: allowed collisions survive replacing or removing a
 frame

---
 include/amino/rx/scenegraph_internal.h | 2 +-
 src/rx/amino_fcl.cpp                   | 8 ++++++--
 src/rx/sg_api.cpp                      | 7 +++++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/amino/rx/scenegraph_internal.h b/include/amino/rx/scenegraph_internal.h
index e89eba4..84ae1ff 100644
--- a/include/amino/rx/scenegraph_internal.h
+++ b/include/amino/rx/scenegraph_internal.h
@@ -201,7 +201,7 @@ struct SceneGraph  {
     size_t config_size;
 
     /** Set of allowable collision frames by name */
-    std::set<std::pair<const char*,const char*> > allowed;
+    std::set<std::pair<std::string,std::string> > allowed;
 
     /** List of allowable collisions by indices */
     std::vector<size_t> allowed_indices1;
diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index 64dc5e1..e08a79e 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -230,8 +230,12 @@ void aa_rx_sg_cl_init( struct aa_rx_sg *scene_graph )
     sg->allowed_indices2.clear();
 
     for (auto it = sg->allowed.begin(); it!= sg->allowed.end(); it++){
-        sg->allowed_indices1.push_back(aa_rx_sg_frame_id(scene_graph, it->first));
-        sg->allowed_indices2.push_back(aa_rx_sg_frame_id(scene_graph, it->second));
+        aa_rx_frame_id id0 = aa_rx_sg_frame_id(scene_graph, it->first.c_str());
+        aa_rx_frame_id id1 = aa_rx_sg_frame_id(scene_graph, it->second.c_str());
+        // frames may have been removed since
+        if( AA_RX_FRAME_NONE == id0 || AA_RX_FRAME_NONE == id1 ) continue;
+        sg->allowed_indices1.push_back(id0);
+        sg->allowed_indices2.push_back(id1);
     }
 
     aa_rx_sg_clean_collision(scene_graph);
diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 55c685c..1402ccd 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -811,7 +811,10 @@ AA_API  struct aa_rx_sg *  aa_rx_sg_copy( const struct aa_rx_sg * orig){
 
     // set allowed collision
     for (auto &pair : orig->sg->allowed){
-        aa_rx_sg_allow_collision_name(dest, pair.first, pair.second, 1);
+        // frames may have been removed since
+        if( orig->sg->frame_map.count(pair.first) && orig->sg->frame_map.count(pair.second) ) {
+            aa_rx_sg_allow_collision_name(dest, pair.first.c_str(), pair.second.c_str(), 1);
+        }
     }
 
     // initialize sg
@@ -843,7 +846,7 @@ aa_rx_sg_allow_collision_name( struct aa_rx_sg *scene_graph,
         string0 = scene_graph->sg->frame_map[frame1]->name.c_str();
         string1 = scene_graph->sg->frame_map[frame0]->name.c_str();
     }
-    std::pair<const char*, const char*> p(string0, string1);
+    std::pair<std::string, std::string> p(string0, string1);
     if (allowed){
         scene_graph->sg->allowed.insert(p);
     } else {
-- 
2.43.0


From d885a47773a180570d13fdd448c98a8c5894de47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:59 +0000
Subject: [PATCH 40/80] fix: a non-unit revolute axis scales the rotation

---
 include/amino/rx/scenegraph_internal.h |  6 ++++++
 src/rx/scenegraph.cpp                  | 19 ++++++++++++-------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/amino/rx/scenegraph_internal.h b/include/amino/rx/scenegraph_internal.h
index 84ae1ff..a1b630c 100644
--- a/include/amino/rx/scenegraph_internal.h
+++ b/include/amino/rx/scenegraph_internal.h
@@ -169,6 +169,12 @@ struct SceneFrameRevolute : public SceneFrameJoint {
     virtual void tfmat_rel( const double *q, double R[12] );
     virtual void duqu_rel( const double *q, double S[8] );
     //virtual aa_rx_frame_type type();
+
+    /** Unit axis of rotation */
+    double axis_unit[3];
+
+    /** Norm of the given axis, which scales the rotation */
+    double axis_norm;
 };
 
 
diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 29e1089..9871ed7 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -132,7 +132,12 @@ SceneFrameRevolute::SceneFrameRevolute(
     SceneFrameJoint( AA_RX_FRAME_REVOLUTE,
                      _parent, _name, q, v,
                      _config_name, _offset, _axis)
-{ }
+{
+    axis_norm = sqrt( _axis[0]*_axis[0] + _axis[1]*_axis[1] + _axis[2]*_axis[2] );
+    for( size_t i = 0; i < 3; i ++ ) {
+        axis_unit[i] = (axis_norm > 0) ? _axis[i] / axis_norm : 0;
+    }
+}
 
 
 SceneFrameRevolute::~SceneFrameRevolute()
@@ -216,9 +221,9 @@ void SceneFramePrismatic::duqu_rel( const double *q, double _S[8] )
 
 void SceneFrameRevolute::tf_rel( const double *q, double _E[7] )
 {
-    double qo = q[this->config_index] + this->offset;
+    double qo = axis_norm * (q[this->config_index] + this->offset);
     double h[4];
-    aa_tf_axang2quat2( axis, qo, h );
+    aa_tf_axang2quat2( axis_unit, qo, h );
     // TODO: can we elide when identify?
     // Maybe using a different frame type.
     aa_tf_qmul( E + AA_TF_QUTR_Q, h, _E + AA_TF_QUTR_Q );
@@ -228,9 +233,9 @@ void SceneFrameRevolute::tf_rel( const double *q, double _E[7] )
 
 void SceneFrameRevolute::duqu_rel( const double *q, double _S[8] )
 {
-    double qo = q[this->config_index] + this->offset;
+    double qo = axis_norm * (q[this->config_index] + this->offset);
     double h[4],v2[3];
-    aa_tf_axang2quat2( axis, qo, h );
+    aa_tf_axang2quat2( axis_unit, qo, h );
     // TODO: can we elide when identify?
     // Maybe using a different frame type.
 
@@ -247,9 +252,9 @@ void SceneFrameRevolute::duqu_rel( const double *q, double _S[8] )
 
 void SceneFrameRevolute::tfmat_rel( const double *q, double _T[12] )
 {
-    double qo = q[this->config_index] + this->offset;
+    double qo = axis_norm * (q[this->config_index] + this->offset);
     double R1[9];
-    aa_tf_axang2rotmat2( axis, qo, R1 );
+    aa_tf_axang2rotmat2( axis_unit, qo, R1 );
     // TODO: can we elide when identify?
     // Maybe using a different frame type.
     aa_tf_rotmat_mul( R, R1, _T + AA_TF_TFMAT_R );
-- 
2.43.0


From 77782f4ea8b54c19d3c167a0c0f884984c4664e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 41/80] fix: aa_rx_mesh_set_texture releases the previous
 texture coordinates

---
 src/rx/scene_geom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/scene_geom.c b/src/rx/scene_geom.c
index f1cc395..1c83b67 100644
--- a/src/rx/scene_geom.c
+++ b/src/rx/scene_geom.c
@@ -431,7 +431,7 @@ void aa_rx_mesh_set_texture (
     aa_rx_mesh_set_rgba( mesh, 1, 1, rgba, 1 );
 
     // indices
-    /* if( mesh->uv_data ) free(mesh->uv_data); */
+    aa_checked_free(mesh->uv_data);
     mesh->uv = mesh->uv_data = AA_NEW0_AR(float, 2*mesh->n_vertices);
 }
 
-- 
2.43.0


From 815045427b6a38f2aceaf4eb70dacd43a2ab1c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 42/80] fix: trapezoidal segments accelerate in the direction
 of motion

---
 src/ct/traj.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index c8847c4..e48adea 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -491,14 +491,15 @@ static int aa_ct_seg_ddq_eval( struct aa_ct_seg *seg,
     if( t >= cx->t0 && t <= cx->t1 ) {
         size_t n = AA_MIN( cx->n_q, state->n_q );
         double tt = t - cx->t0;
-        double q, dq, ddq, q0, dq0;
+        double q, dq, ddq;
         for( size_t i = 0; i < n; i ++ ) {
             ddq = cx->ddq[i];
             dq  = cx->dq0[i];
             q   =  cx->q0[i];
 
-            state->dq[i] = dq - tt * ddq;
-            state->q[i] = q + tt * dq - tt * tt * ddq/2;
+            if( state->q ) state->q[i] = q + tt * dq + tt * tt * ddq/2;
+            if( state->dq ) state->dq[i] = dq + tt * ddq;
+            if( state->ddq ) state->ddq[i] = ddq;
         }
         return AA_CT_SEG_IN;
     } else {
-- 
2.43.0


From f68b73cb7ebfe535b79cb31a7b9c13972044510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 43/80] fix: trapezoidal segments respect the limits of every
 joint

---
 src/ct/traj.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index e48adea..7ae07fd 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -523,6 +523,7 @@ aa_ct_seg_trap_new( struct aa_mem_region *reg,
     /* Compute segment time */
     double dt = 0;
     double ta = 0;
+    double tv = 0; /* displacement over cruise velocity */
     size_t n_q = AA_MIN(state0->n_q, state1->n_q);
     double dqmax, ddqmax, dti, q0, q1;
     double sign;
@@ -558,9 +559,10 @@ aa_ct_seg_trap_new( struct aa_mem_region *reg,
             dti = 2*tai;
         }
 
-        dt = AA_MAX(dt, dti);
+        tv = AA_MAX(tv, dti - tai);
         ta = AA_MAX(ta, tai);
     }
+    dt = tv + ta;
 
     /* Allocate */
     /* Accelearation segment */
@@ -631,7 +633,7 @@ aa_ct_seg_trap_new( struct aa_mem_region *reg,
         double q_diff = (q1-q0);
         double denom = ta * ta + ta * ( dt - 2 * ta );
 
-        double ddq = q_diff/denom;
+        double ddq = (denom > 0) ? q_diff/denom : 0;
 
         a_cx->ddq[i] = ddq;
 
-- 
2.43.0


From 4fa780442732cbdf69db115deaa7bfbe98cfdf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 44/80] fix: aa_ct_tjq_trap_generate leaks its segment array

---
 src/ct/traj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 7ae07fd..4645859 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -667,7 +667,7 @@ struct aa_ct_seg_list *aa_ct_tjq_trap_generate( struct aa_mem_region *reg,
             fprintf(stderr,
                     "WARNING: mistmactched confiuration count during trajectory generation.\n");
         }
-        struct aa_ct_seg **seg_arr = AA_NEW_AR(aa_ct_seg*, 3);
+        struct aa_ct_seg *seg_arr[3];
 
         aa_ct_seg_trap_new( reg, segs->duration,
                             &(*itr0)->state, &(*itr1)->state,
-- 
2.43.0


From 2091dda27bf92854ef48ae8156c0f2a3cd18496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 45/80] fix: trajectory evaluation skips the arrays a state
 does not have

---
 src/ct/traj.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 4645859..9ec1173 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -366,8 +366,10 @@ static int aa_ct_seg_dq_eval( struct aa_ct_seg *seg,
         return AA_CT_SEG_IN;
     } else {
         tt = cx->t1 - cx->t0;
-        for( size_t i = 0; i < n; i++ ) {
-            state->q[i] = cx->q0[i] + cx->dq[i] * tt;
+        if( state->q ) {
+            for( size_t i = 0; i < n; i++ ) {
+                state->q[i] = cx->q0[i] + cx->dq[i] * tt;
+            }
         }
         return AA_CT_SEG_OUT;
     }
@@ -736,19 +738,19 @@ aa_ct_tj_pb_eval(struct aa_ct_seg *seg, struct aa_ct_state *state, double t)
         for (size_t i = 0; i < c_cx->n_q; i++) {
             double p_dq = (p_cx) ? p_cx->dq[i] : 0;
 
-            state->q[i] = c_cx->q[i] + p_dq * dt + \
+            if( state->q ) state->q[i] = c_cx->q[i] + p_dq * dt +    \
                 c_cx->ddq[i] * pow((dt + c_cx->b / 2), 2) / 2;
-            state->dq[i] = p_dq + c_cx->ddq[i] * (dt + c_cx->b / 2);
-            state->ddq[i] = c_cx->ddq[i];
+            if( state->dq ) state->dq[i] = p_dq + c_cx->ddq[i] * (dt + c_cx->b / 2);
+            if( state->ddq ) state->ddq[i] = c_cx->ddq[i];
         }
 
     } else if (n_cx && ((c_cx->t + c_cx->b / 2) <= t
                         && t <= (c_cx->t + c_cx->dt - n_cx->b / 2))) {
         // Linear region
         for (size_t i = 0; i < c_cx->n_q; i++) {
-            state->q[i] = c_cx->q[i] + c_cx->dq[i] * dt;
-            state->dq[i] = c_cx->dq[i];
-            state->ddq[i] = 0;
+            if( state->q ) state->q[i] = c_cx->q[i] + c_cx->dq[i] * dt;
+            if( state->dq ) state->dq[i] = c_cx->dq[i];
+            if( state->ddq ) state->ddq[i] = 0;
         }
 
     } else {
-- 
2.43.0


From 7a18732ffa0dc9c0223a53d2d79a6ff89e5501c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 46/80] fix: a linear segment of no length has zero velocity

---
 src/ct/traj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 9ec1173..5cf48f5 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -418,7 +418,7 @@ aa_ct_seg_dq_new( struct aa_mem_region *reg,
 
     /* Compute velocity */
     for( size_t i = 0; i < cx->n_q; i ++ ) {
-        cx->dq[i] /= dt;
+        cx->dq[i] = (dt > 0) ? cx->dq[i] / dt : 0;
     }
     cx->t1 = cx->t0 + dt;
 
-- 
2.43.0


From 697222213b0c015d736d3363a8699937be4af878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 47/80] fix: a trajectory can be evaluated at a time before the
 last one

---
 src/ct/traj.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 5cf48f5..394c4df 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -209,20 +209,26 @@ AA_API int
 aa_ct_seg_list_eval(struct aa_ct_seg_list *list, struct aa_ct_state *state,
                     double t)
 {
-    if (!list->it_on) {
-        list->it = list->list.begin();
-        list->it_on = 1;
+    /* Continue from the current segment when possible */
+    if (list->it_on) {
+        for (; list->it != list->list.end(); list->it++) {
+            struct aa_ct_seg *seg = *list->it;
+
+            int r;
+            if ((r = seg->eval(seg, state, t)))
+                return r;
+        }
     }
 
-    do {
+    /* The time may lie before the current segment */
+    list->it_on = 1;
+    for (list->it = list->list.begin(); list->it != list->list.end(); list->it++) {
         struct aa_ct_seg *seg = *list->it;
 
         int r;
         if ((r = seg->eval(seg, state, t)))
             return r;
-
-        list->it++;
-    } while (list->it != list->list.end());
+    }
 
     list->it_on = 0;
     return AA_CT_SEG_OUT;
-- 
2.43.0


From ed86e024ce4102eedeba29e522764b70c02b707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 48/80] fix: a SLERP segment says whether the time lies within
 it and stays within the effort array

---
 include/amino/ct/traj_internal.hpp | 2 ++
 src/ct/traj.cpp                    | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/amino/ct/traj_internal.hpp b/include/amino/ct/traj_internal.hpp
index de2eb1f..762ee61 100644
--- a/include/amino/ct/traj_internal.hpp
+++ b/include/amino/ct/traj_internal.hpp
@@ -114,6 +114,8 @@ struct aa_ct_seg_list {
     {
         aa_mem_region_init(&reg, 512);
         it_on = 0;
+        n_q = 0;
+        duration = 0;
     }
 
     ~aa_ct_seg_list(void) {
diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 394c4df..8c632ef 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -1162,8 +1162,8 @@ static int aa_ct_seg_slerp_eval( struct aa_ct_seg *seg,
         if( state->dX ) AA_MEM_CPY( state->dX, cx->dx, 6 );
     }
     if( state->ddX ) AA_MEM_ZERO(state->ddX,6);
-    if( state->eff ) AA_MEM_ZERO(state->eff,6);
-    return 0;
+    if( state->eff ) AA_MEM_ZERO(state->eff, state->n_q);
+    return (t >= 0 && t <= cx->dt) ? AA_CT_SEG_IN : AA_CT_SEG_OUT;
 }
 
 struct aa_ct_seg_list *aa_ct_tjx_slerp_generate(struct aa_mem_region *reg,
-- 
2.43.0


From 69a219884a070370ffe0e3b18fdc69c8cd23fa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 49/80] fix: aa_ct_seg_list_check_c0 releases its states once,
 on every path

---
 src/ct/traj.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 8c632ef..fdb89c7 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -1052,6 +1052,7 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
     size_t n_q = aa_ct_seg_list_n_q(segs);
     struct aa_ct_state *state0 = aa_ct_state_alloc(reg, n_q, 0);
     struct aa_ct_state *state1 = aa_ct_state_alloc(reg, n_q, 0);
+    struct aa_ct_state *const state_base = state0;
     struct aa_ct_state *temp;
 
     aa_ct_seg_list_eval(segs, state1, dt);
@@ -1070,6 +1071,7 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
             fprintf(stderr, "WARNING: trajectory is not continious for seg type: %f, %f\n", state_diff, tol);
             fprintf(stderr, "Vels: dq %f, %f ...\n", state0->dq[0], state0->dq[1]);
             fprintf(stderr, "Times: t0: %f, t1: %f\n", t0, t1);
+            aa_mem_region_pop(reg, state_base);
             return 1;
         }
 
@@ -1100,6 +1102,7 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
         else
         {
             // Why does the segment have a weird type?
+            aa_mem_region_pop(reg, state_base);
             return 3;
         }
         double state_diff = 0.0;
@@ -1113,12 +1116,12 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
             // Max distance between two segment endpoints exceed the given epsilon.
             fprintf(stderr, "WARNING: trajectory segment endpoints don't match for seg type %d: "
                     "%f, %f.\n", c_seg->type, state_diff, eps);
+            aa_mem_region_pop(reg, state_base);
             return 2;
         }
     }
 
-    aa_mem_region_pop(reg, state0);
-    aa_mem_region_pop(reg, state1);
+    aa_mem_region_pop(reg, state_base);
 
     // All good!
     return 0;
-- 
2.43.0


From d2af67de77ee66fec80d7b774018a5f1e951358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 50/80] fix: aa_ct_state_dump prints the efforts

---
 src/ct/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ct/state.c b/src/ct/state.c
index 833c634..de0cda3 100644
--- a/src/ct/state.c
+++ b/src/ct/state.c
@@ -125,7 +125,7 @@ aa_ct_state_dump(FILE *stream, struct aa_ct_state *state)
 
     if (state->eff) {
         fputs("eff: ", stream);
-        aa_dump_vec(stream, state->ddq, state->n_q);
+        aa_dump_vec(stream, state->eff, state->n_q);
     }
 
     if (state->X) {
-- 
2.43.0


From 8c3aaf604c9654033d0634856a227a0ed284915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 51/80] fix: configurations without limits are unlimited in
 aa_rx_ct_sg_limits

---
 src/rx/rx_ct.c | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/src/rx/rx_ct.c b/src/rx/rx_ct.c
index 9ed0ab7..24e1199 100644
--- a/src/rx/rx_ct.c
+++ b/src/rx/rx_ct.c
@@ -292,24 +292,7 @@ aa_rx_ct_tjx_path( struct aa_mem_region *region,
 AA_API struct aa_ct_limit *
 aa_rx_ct_sg_limits( struct aa_mem_region *region, const struct aa_rx_sg *sg )
 {
-    struct aa_ct_limit *lim = AA_MEM_REGION_NEW(region, struct aa_ct_limit);
-    size_t n_q = aa_rx_sg_config_count(sg);
-
-    lim->min = aa_ct_state_alloc(region, n_q, 0);
-    lim->max = aa_ct_state_alloc(region, n_q, 0);
-
-    for( size_t i = 0; i < n_q; i ++ ) {
-        aa_rx_sg_get_limit_pos(sg, (aa_rx_config_id)i,
-                               lim->min->q+i, lim->max->q+i);
-        aa_rx_sg_get_limit_vel(sg, (aa_rx_config_id)i,
-                               lim->min->dq+i, lim->max->dq+i);
-        aa_rx_sg_get_limit_acc(sg, (aa_rx_config_id)i,
-                               lim->min->ddq+i, lim->max->ddq+i);
-        aa_rx_sg_get_limit_eff(sg, (aa_rx_config_id)i,
-                               lim->min->eff+i, lim->max->eff+i);
-    }
-
-    return lim;
+    return aa_rx_ct_limits(region, sg);
 }
 
 /* AA_API int */
-- 
2.43.0


From 42e4e8e3cd542d54c827a08ea1a46c88e53b867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 52/80] fix: the acceleration of a linear segment is zero

---
 src/ct/traj.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index fdb89c7..9051707 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -368,6 +368,9 @@ static int aa_ct_seg_dq_eval( struct aa_ct_seg *seg,
         if( state->dq ) {
             AA_MEM_CPY(state->dq, cx->dq, n);
         }
+        if( state->ddq ) {
+            AA_MEM_ZERO(state->ddq, n);
+        }
 
         return AA_CT_SEG_IN;
     } else {
-- 
2.43.0


From ec28167ec2ea72d5678c6fb226fb13bd4d0297df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 53/80] fix: aa_ct_tjX_pb_generate releases its temporary point
 list

---
 src/ct/traj.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 9051707..bf9080f 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -1022,6 +1022,8 @@ aa_ct_tjX_pb_generate(struct aa_mem_region *reg, struct aa_ct_pt_list *pt_list,
         c_seg->eval = aa_ct_tjX_pb_eval;
     }
 
+    aa_ct_pt_list_destroy(Xpt_list);
+
     return Xseg_list;
 }
 
-- 
2.43.0


From ff41564941ea0d9e610d58fda9ddf29972d84532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 54/80] fix: aa_opt_lp_clp has C linkage as declared

---
 src/opt/opt_clp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opt/opt_clp.cpp b/src/opt/opt_clp.cpp
index 28e3473..6b61291 100644
--- a/src/opt/opt_clp.cpp
+++ b/src/opt/opt_clp.cpp
@@ -347,7 +347,7 @@ AA_API struct aa_opt_cx* aa_opt_clp_crscreate (
 
 
 
-int aa_opt_lp_clp (
+AA_API int aa_opt_lp_clp (
     size_t m, size_t n,
     const double *A, size_t ldA,
     const double *b_lower, const double *b_upper,
-- 
2.43.0


From 9633c117997e17380b1c672c9b0e45461bf5ef53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 55/80] fix: aa_opt_glpk_crscreate no longer leaks a context

---
 src/opt/opt_glpk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opt/opt_glpk.c b/src/opt/opt_glpk.c
index 58e16b2..4b81480 100644
--- a/src/opt/opt_glpk.c
+++ b/src/opt/opt_glpk.c
@@ -347,7 +347,7 @@ aa_opt_glpk_crscreate (
     }
 
 
-    return cx_finish( &s_vtab, lp );
+    return cx;
 }
 
 
-- 
2.43.0


From ef07d1374a141d5d4aa281db76b10cba0ad19039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 56/80] fix: the GLPK wrapper reports success only for an
 optimal solution

---
 src/opt/opt_glpk.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/opt/opt_glpk.c b/src/opt/opt_glpk.c
index 4b81480..a59dbf3 100644
--- a/src/opt/opt_glpk.c
+++ b/src/opt/opt_glpk.c
@@ -69,14 +69,18 @@ static int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
     int nb = glp_get_num_bin(lp);
     int ni = glp_get_num_int(lp);
     if( nb + ni > 0 ) {
-        glp_simplex( lp, NULL );
-        r = glp_intopt( lp, NULL );
+        r = glp_simplex( lp, NULL );
+        if( 0 == r ) r = glp_intopt( lp, NULL );
+        /* zero only means the solver ran, not that it found an optimum */
+        if( 0 == r && GLP_OPT != glp_mip_status(lp) ) r = -1;
         /* Result */
         for( int j = 0; j < (int)n; j ++ ) {
             x[j] = glp_mip_col_val( lp, j+1 );
         }
     } else {
         r = glp_simplex( lp, NULL );
+        /* zero only means the solver ran, not that it found an optimum */
+        if( 0 == r && GLP_OPT != glp_get_status(lp) ) r = -1;
         /* Result */
         for( int j = 0; j < (int)n; j ++ ) {
             x[j] = glp_get_col_prim( lp, j+1 );
-- 
2.43.0


From 68909f53f7834e543ab6e52146f80a712dd52dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 57/80] fix: aa_opt_lpsolve_gmcreate no longer leaks a context

---
 src/opt/opt_lpsolve.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index 809d496..fbb5f63 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -340,8 +340,7 @@ AA_API struct aa_opt_cx* aa_opt_lpsolve_gmcreate (
     s_set_cstr_gm( cx, m, n, A, ldA, b_lower, b_upper );
 
 
-    return s_finish(m,n,lp,
-                    c, x_lower, x_upper);
+    return cx;
 
 ERROR:
     if( lp ) {
-- 
2.43.0


From 3a653cc7390c5dc6e97bb4596860c403bcf8f417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 58/80] fix: lp_solve wrapper counts equality and free
 constraint rows as it adds them

---
 src/opt/opt_lpsolve.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index fbb5f63..f48efe4 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -189,7 +189,8 @@ static int s_count_rows( size_t m,
         int lb = aa_opt_is_lbound(b_lower[i]);
         int ub = aa_opt_is_ubound(b_upper[i]);
         if( !aa_opt_is_free(lb, ub) ) {
-            if( aa_opt_is_bound(lb,ub) ) {
+            if( aa_opt_is_bound(lb,ub) &&
+                !aa_opt_is_eq(b_lower[i], b_upper[i]) ) {
                 row_count += 2;
             } else {
                 row_count ++;
@@ -261,6 +262,9 @@ s_set_cstr_gm( struct aa_opt_cx *cx,
                     assert(0);
                     goto ERROR;
                 }
+            } else {
+                // no constraint, not counted
+                continue;
             }
         }
         if( ! s_set_row( lp, con_type,
-- 
2.43.0


From ef6c8da749046d3b777bd3593e798c5670d635ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 59/80] fix: LC3 nullspace term has one entry per joint

---
 src/rx/lc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/lc3.c b/src/rx/lc3.c
index 549ebd8..d179ff3 100644
--- a/src/rx/lc3.c
+++ b/src/rx/lc3.c
@@ -347,7 +347,7 @@ aa_rx_wk_dx2dq_lc3( const struct aa_rx_wk_lc3_cx *cx,
                      1.0, AA_VEC_ARGS(dq) );
 
         // Nullspace Projection
-        cblas_daxpy( (int)n_x,
+        cblas_daxpy( (int)n_q,
                      opt_x[n_x], A+(n_x*n_q), 1,
                      AA_VEC_ARGS(dq) );
 
-- 
2.43.0


From 8c89b22969213d7fbc52038f90c62d9610e29f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 60/80] fix: every restart of the Jacobian IK has its full
 iteration count

---
 src/rx/ik_jacobian.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/ik_jacobian.c b/src/rx/ik_jacobian.c
index 0685d93..8573d6a 100644
--- a/src/rx/ik_jacobian.c
+++ b/src/rx/ik_jacobian.c
@@ -130,6 +130,8 @@ s_ik_jpinv( struct kin_solve_cx *cx,
         return AA_RX_INVALID_PARAMETER;
     }
 
+    cx->iteration = 0;
+
     struct aa_ode_sol_opts sol_opts;
     sol_opts.adapt_tol_dec = cx->opts->tol_dq / 16;
     sol_opts.adapt_tol_inc = cx->opts->tol_dq / 2;
-- 
2.43.0


From dd64cff5fce2e5c3054bf4209d2283898d067172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 61/80] fix: aa_rx_ik_parm_destroy releases the seed

---
 src/rx/ik_opt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/ik_opt.c b/src/rx/ik_opt.c
index 6154efd..571b7cd 100644
--- a/src/rx/ik_opt.c
+++ b/src/rx/ik_opt.c
@@ -93,6 +93,7 @@ aa_rx_ik_parm_destroy( struct aa_rx_ik_parm *opts)
 {
     if( opts->dq_dt_data ) free( opts->dq_dt_data );
     if( opts->q_ref_data ) free( opts->q_ref_data );
+    if( opts->q_all_seed_data ) free( opts->q_all_seed_data );
     free(opts);
 }
 
-- 
2.43.0


From 15837326854e59720ad3d8c4d8870898314ee930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 62/80] fix: aa_rx_ct_tjx_path result survives when allocated
 from the thread's region

---
 src/rx/rx_ct.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rx/rx_ct.c b/src/rx/rx_ct.c
index 24e1199..42852dc 100644
--- a/src/rx/rx_ct.c
+++ b/src/rx/rx_ct.c
@@ -197,7 +197,10 @@ aa_rx_ct_tjx_path( struct aa_mem_region *region,
 
     assert( aa_rx_sg_sub_all_config_count(ssg) == n_q_all );
 
+    /* The result must survive popping the temporaries */
     struct aa_mem_region *local_region = aa_mem_region_local_get();
+    const int same_region = (local_region == region);
+    if( same_region ) local_region = aa_mem_region_create(4096);
 
     struct path_cx *cx = AA_MEM_REGION_NEW( local_region, struct path_cx );
     {
@@ -275,7 +278,11 @@ aa_rx_ct_tjx_path( struct aa_mem_region *region,
                            cx->limits->max->q[config_id]);
         }
     }
-    aa_mem_region_pop(local_region, cx);
+    if( same_region ) {
+        aa_mem_region_destroy(local_region);
+    } else {
+        aa_mem_region_pop(local_region, cx);
+    }
 
 
     return r;
-- 
2.43.0


From fdc85e0933d1c30b3f52010e4f1cb109ea9076ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 63/80] fix: finite difference IK error took a dual quaternion
 logarithm of a quaternion

---
 src/rx/ik_nlopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/ik_nlopt.c b/src/rx/ik_nlopt.c
index 376b593..11022e1 100644
--- a/src/rx/ik_nlopt.c
+++ b/src/rx/ik_nlopt.c
@@ -323,7 +323,7 @@ static double s_nlobj_qv_fd_helper( void *vcx, const struct aa_dvec *x)
 
     double q_ln[4];
     aa_tf_qminimize(q_err);
-    aa_tf_duqu_ln(q_err, q_ln);
+    aa_tf_qln(q_err, q_ln);
 
     for(size_t i = 0; i < 3; i ++ ) v_err[i] = v_act[i] - v_ref[i];
 
-- 
2.43.0


From 908da8854b06f1407a58aaee2e6460d76e9af39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 64/80] fix: the SQP IK seed is moved within the position
 limits

---
 src/rx/ik_nlopt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/ik_nlopt.c b/src/rx/ik_nlopt.c
index 11022e1..2182683 100644
--- a/src/rx/ik_nlopt.c
+++ b/src/rx/ik_nlopt.c
@@ -616,6 +616,8 @@ s_ik_nlopt( struct kin_solve_cx *cx,
                 lb[i] = -DBL_MAX;
                 ub[i] = DBL_MAX;
             }
+            // the optimizer requires (and may just return) a seed within bounds
+            AA_DVEC_REF(cx->q_sub,i) = aa_fclamp( AA_DVEC_REF(cx->q_sub,i), lb[i], ub[i] );
         }
     }
 
-- 
2.43.0


From 01ddc2df9e9c7f23a9c17e727ab4c3488417e238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 65/80] fix: aa_rx_ik_check used uninitialised frames outside
 the sub-scenegraph

---
 src/rx/scene_ik.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/scene_ik.c b/src/rx/scene_ik.c
index 69de973..62d236d 100644
--- a/src/rx/scene_ik.c
+++ b/src/rx/scene_ik.c
@@ -398,6 +398,7 @@ aa_rx_ik_check( const struct aa_rx_ik_cx *cx,
     aa_rx_sg_sub_config_scatter( cx->ssg, q_sub, q_all );
 
     struct aa_rx_fk *fk = aa_rx_fk_alloc(aa_rx_sg_sub_sg(cx->ssg), reg);
+    aa_rx_fk_cpy(fk, cx->fk);
     aa_rx_fk_sub(fk, cx->ssg, q_sub);
     double *E_act = aa_rx_fk_ref(fk, cx->frames[0]); // TODO: fix for multiple EEs
 
-- 
2.43.0


From 92309aadeb3b3cc28bba35accdeb8d6881d9a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 66/80] fix: aa_rx_ik_solve kept scratch memory when refusing
 several poses

---
 src/rx/scene_ik.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rx/scene_ik.c b/src/rx/scene_ik.c
index 62d236d..c32dc31 100644
--- a/src/rx/scene_ik.c
+++ b/src/rx/scene_ik.c
@@ -223,6 +223,7 @@ aa_rx_ik_solve( const struct aa_rx_ik_cx *context,
 {
     if( aa_rx_sg_sub_config_count(context->ssg) != q->len
         || AA_RX_TF_LEN != TF->rows
+        || 1 != TF->cols /* only chains */
         )
     {
         return AA_RX_INVALID_PARAMETER;
@@ -232,10 +233,6 @@ aa_rx_ik_solve( const struct aa_rx_ik_cx *context,
     struct kin_solve_cx *kcx = s_kin_solve_cx_alloc( context,
                                                      aa_mem_region_local_get() );
 
-    if( 1 != TF->cols )
-    {   /* only chains */
-        return AA_RX_INVALID_PARAMETER;
-    }
     kcx->TF_ref = TF;
 
     /* aa_rx_sg_tf( kcx->ssg->scenegraph, */
-- 
2.43.0


From 6d703b997ffd83eb84e8da02eb30b7ff5a54b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:17 +0000
Subject: [PATCH 67/80] fix: collision cylinders of a scaled geometry were
 displaced by the unscaled height

---
 src/rx/amino_fcl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index e08a79e..d831c86 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -405,7 +405,8 @@ s_update_tf( const struct aa_rx_cl *cl,
          */
         if( AA_RX_CYLINDER == shape_type ) {
             struct aa_rx_shape_cylinder *shape = (struct aa_rx_shape_cylinder *)  shape_;
-            double E[7] = {0,0,0,1, 0,0, shape->height/2};
+            double scale = aa_rx_geom_opt_get_scale(aa_rx_geom_get_opt(geom));
+            double E[7] = {0,0,0,1, 0,0, scale*shape->height/2};
             double E1[7];
             aa_tf_qutr_mul(TF_obj, E, E1);
             obj->setTransform(amino::fcl::qutr2fcltf(E1));
-- 
2.43.0


From 4b909dcb9cccbd2c1cafa050f86a11b2c0676789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:17 +0000
Subject: [PATCH 68/80] fix: collision checking did not update the bounding
 boxes used by the broadphase

---
 src/rx/amino_fcl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index d831c86..a2ae9ba 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -413,6 +413,9 @@ s_update_tf( const struct aa_rx_cl *cl,
         } else {
             obj->setTransform( amino::fcl::qutr2fcltf(TF_obj) );
         }
+        // The broadphase uses the bounding box, which FCL does not
+        // recompute when the transform changes.
+        obj->computeAABB();
     }
     cl->manager->update();
 
-- 
2.43.0


From 5fcb9495d9c3ddbdb5949d438e003af448b3421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:17 +0000
Subject: [PATCH 69/80] fix: aa_rx_cl_set_fill cleared entries of the
 destination

---
 src/rx/collision_set.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rx/collision_set.cpp b/src/rx/collision_set.cpp
index 2a86c3b..aedf3fc 100644
--- a/src/rx/collision_set.cpp
+++ b/src/rx/collision_set.cpp
@@ -102,8 +102,10 @@ AA_API void
 aa_rx_cl_set_fill( struct aa_rx_cl_set *dst,
                    const struct aa_rx_cl_set *src )
 {
-    dst->v->assign( src->v->begin(),
-                    src->v->end() );
+    assert( dst->v->size() == src->v->size() );
+    for( size_t i = 0; i < src->v->size(); i ++ ) {
+        if( (*src->v)[i] ) (*dst->v)[i] = true;
+    }
 }
 
 AA_API int
-- 
2.43.0


From 5444fe41519c0ff2d806db704f7be4c1a5288624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:20 +0000
Subject: [PATCH 70/80] fix: wavefront numbers ignored exponents and saturated
 long fractions

---
 src/wavefront/wf_obj.c | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/wavefront/wf_obj.c b/src/wavefront/wf_obj.c
index 2438538..e081128 100644
--- a/src/wavefront/wf_obj.c
+++ b/src/wavefront/wf_obj.c
@@ -120,22 +120,11 @@ aa_rx_wf_parse_float( const char *str )
     /* skip blanks */
     while( *str &&  isblank(*str) ) str++;
 
-    char *e, *g;
-    double r = (double)strtol( str, &e, 10 );
-    long f = ('.' == *e)
-        ? strtol( e+1, &g, 10 )
-        : 0;
-
-    if( f ) {
-        long k = g - e - 1;
-        if( k ) {
-            double x = (double)f;
-            while(k--) x/=10;
-            if( r < 0 || ('-' == *str) )
-                r -= x;
-            else
-                r += x;
-        }
+    char *e;
+    double r = strtod( str, &e );
+    /* the scanner also accepts these exponent markers */
+    if( 'd' == *e || 's' == *e ) {
+        r *= pow( 10, (double)strtol(e+1, NULL, 10) );
     }
 
     /* printf("t: %s\n", str); */
-- 
2.43.0


From b9c84d33db4702c9d22ad19b86783d0cdf6e447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:20 +0000
Subject: [PATCH 71/80] fix: aa_rx_wf_obj_get_mtl and get_mtl_filename read one
 past the end

---
 src/wavefront/wf_obj.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavefront/wf_obj.c b/src/wavefront/wf_obj.c
index e081128..49edf33 100644
--- a/src/wavefront/wf_obj.c
+++ b/src/wavefront/wf_obj.c
@@ -228,7 +228,7 @@ aa_rx_wf_obj_mtl_count( struct aa_rx_wf_obj *obj )
 AA_API const char *
 aa_rx_wf_obj_get_mtl_filename( struct aa_rx_wf_obj *obj, size_t i )
 {
-    if( i <= obj->mtl_files.size ) {
+    if( i < obj->mtl_files.size ) {
         return obj->mtl_files.data[i];
     } else {
         return NULL;
@@ -238,7 +238,7 @@ aa_rx_wf_obj_get_mtl_filename( struct aa_rx_wf_obj *obj, size_t i )
 AA_API const struct aa_rx_wf_mtl *
 aa_rx_wf_obj_get_mtl( struct aa_rx_wf_obj *obj, size_t i )
 {
-    if( i <= obj->mtl.size ) {
+    if( i < obj->mtl.size ) {
         return obj->mtl.data[i];
     } else {
         return NULL;
-- 
2.43.0


From 0aa1ffb87603e96dfb99dc00d0b0ee6888f3883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:20 +0000
Subject: [PATCH 72/80] fix: aa_rx_wf_obj_destroy leaked the texture vertices

---
 src/wavefront/wf_obj.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wavefront/wf_obj.c b/src/wavefront/wf_obj.c
index 49edf33..b5a16ce 100644
--- a/src/wavefront/wf_obj.c
+++ b/src/wavefront/wf_obj.c
@@ -139,6 +139,7 @@ aa_rx_wf_obj_destroy( struct aa_rx_wf_obj * obj)
 {
     free( obj->vertex.data );
     free( obj->normal.data );
+    free( obj->texture_vertex.data );
     free( obj->vertex_indices.data );
     free( obj->normal_indices.data );
     free( obj->uv_indices.data );
-- 
2.43.0


From 8f37a541bbacf48ca601ecac418de91e599ecb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:20 +0000
Subject: [PATCH 73/80] fix: a material property before any newmtl dereferenced
 NULL

---
 src/wavefront/mtl.l | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/wavefront/mtl.l b/src/wavefront/mtl.l
index 30f22ce..934c5c2 100644
--- a/src/wavefront/mtl.l
+++ b/src/wavefront/mtl.l
@@ -60,6 +60,14 @@
 #include "amino.h"
 #include "wavefront_internal.h"
 
+/* Properties belong to the last material */
+#define CHECK_CURRENT                                                   \
+    if( NULL == WF_MTL_CURRENT ) {                                      \
+        fprintf(stderr, "Property without material (%s:%d)\n",          \
+                yyextra->mtl->filename, yylineno);                      \
+        return -1;                                                      \
+    }
+
 %}
 
 %x EOL
@@ -119,6 +127,7 @@ START {MAYBE_BLANKS}
 
     /* Specular Weight */
 {START}"Ns"{BLANKS} {
+    CHECK_CURRENT;
     BEGIN(NS);
 }
 
@@ -129,6 +138,7 @@ START {MAYBE_BLANKS}
 }
     /* Index of Refraction */
 {START}"Ni"{BLANKS} {
+    CHECK_CURRENT;
     BEGIN(NI);
 }
 
@@ -157,6 +167,7 @@ START {MAYBE_BLANKS}
 
     /* Ambient */
 {START}"Ka"{BLANKS} {
+    CHECK_CURRENT;
     yyextra->v = WF_MTL_CURRENT->ambient;
     BEGIN(KA);
     yy_push_state(V0, yyscanner );
@@ -170,6 +181,7 @@ START {MAYBE_BLANKS}
 
     /* Diffuse */
 {START}"Kd"{BLANKS} {
+    CHECK_CURRENT;
     yyextra->v = WF_MTL_CURRENT->diffuse;
     BEGIN(KD);
     yy_push_state(V0, yyscanner );
@@ -182,6 +194,7 @@ START {MAYBE_BLANKS}
 
     /* Specular */
 {START}"Ks"{BLANKS} {
+    CHECK_CURRENT;
     yyextra->v = WF_MTL_CURRENT->specular;
     BEGIN(KS);
     yy_push_state(V0, yyscanner );
@@ -195,6 +208,7 @@ START {MAYBE_BLANKS}
 
     /* Emission */
 {START}"Ke"{BLANKS} {
+    CHECK_CURRENT;
     yyextra->v = WF_MTL_CURRENT->emission;
     BEGIN(KE);
     yy_push_state(V0, yyscanner );
@@ -209,6 +223,7 @@ START {MAYBE_BLANKS}
 
     /* alpha */
 {START}"d"{BLANKS} {
+    CHECK_CURRENT;
     BEGIN(D);
 }
 
-- 
2.43.0


From 2758f95eaed4f49441606e2077bd0e8210f62a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:43 +0000
Subject: [PATCH 74/80] fix: aa_rx_mp_seq_destroy leaked its elements

---
 src/rx/mp_seq.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/mp_seq.cpp b/src/rx/mp_seq.cpp
index e81d68b..f17938c 100644
--- a/src/rx/mp_seq.cpp
+++ b/src/rx/mp_seq.cpp
@@ -70,6 +70,7 @@ aa_rx_mp_seq_destroy( struct aa_rx_mp_seq * obj)
 {
     for( struct aa_rx_mp_seq_elt *elt : obj->data ) {
         free( elt->path );
+        free( elt );
     }
     delete obj;
 }
-- 
2.43.0


From 0a21e53e6b6e80fcb5b824e64bee420c5620cc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:16 +0000
Subject: [PATCH 75/80] fix: aa_rx_mp_allow_config moved the joints outside the
 planned chain

Allowing the collisions at some configuration replaced the start
configuration in the validity checker, so the path was checked with the
other joints at the allowed configuration but returned with them at the
start.
---
 src/rx/mp/scene_ompl.cpp                   | 3 ++-
 src/rx/mp/scene_state_validity_checker.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index 6e0acd9..ab633df 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -109,6 +109,7 @@ aa_rx_mp_set_start( struct aa_rx_mp *mp,
 {
     /* Assume the start state is valid */
     aa_rx_mp_allow_config(mp, n_all, q_all);
+    mp->validity_checker->set_start(n_all, q_all);
 
     // FIXME: Seems that there are problems if this is called repeatedly
     amino::sgSpaceInformation::Ptr &si = mp->space_information;
@@ -134,7 +135,7 @@ aa_rx_mp_allow_config( struct aa_rx_mp *mp,
     amino::sgStateSpace *ss = si->getTypedStateSpace();
     ss->allow_config(q_all);
 
-    mp->validity_checker->set_start(n_all, q_all);
+    mp->validity_checker->allow();
 }
 
 
diff --git a/src/rx/mp/scene_state_validity_checker.cpp b/src/rx/mp/scene_state_validity_checker.cpp
index 1ad7daf..40f02c7 100644
--- a/src/rx/mp/scene_state_validity_checker.cpp
+++ b/src/rx/mp/scene_state_validity_checker.cpp
@@ -52,7 +52,7 @@ namespace amino {
 sgStateValidityChecker::sgStateValidityChecker(sgSpaceInformation *si)
     :
     TypedStateValidityChecker(si),
-    q_all(new double[getTypedStateSpace()->config_count_all()]),
+    q_all(new double[getTypedStateSpace()->config_count_all()]()),
     cl(aa_rx_cl_create(getTypedStateSpace()->scene_graph)),
     collisions(NULL)
 {
-- 
2.43.0


From 81b9b7df1d10a7676ad3ec4b5db3b03c3f13b9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:16 +0000
Subject: [PATCH 76/80] fix: aa_rx_mp_allow_collision could not take an
 allowance back

The checker only ever added allowed pairs, so a pair that had been
allowed stayed allowed for the planner after allowed=0.
---
 src/rx/mp/scene_ompl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index ab633df..0db42f5 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -146,7 +146,7 @@ aa_rx_mp_allow_collision( struct aa_rx_mp *mp,
     amino::sgSpaceInformation::Ptr &si = mp->space_information;
     amino::sgStateSpace *ss = si->getTypedStateSpace();
     aa_rx_cl_set_set( ss->allowed, id0, id1, allowed );
-    mp->validity_checker->allow();
+    aa_rx_cl_allow( mp->validity_checker->cl, id0, id1, allowed );
 }
 
 AA_API int
-- 
2.43.0


From 33342d096b133989f4e83e979d66fc64d022ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:38 +0000
Subject: [PATCH 77/80] fix: aa_gl_globals_mask cleared memory past the end of
 the mask

The size of the mask is in bytes: growing an existing mask cleared from
four times that offset, outside the array, and left the new words unset.
---
 src/amino_gl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/amino_gl.c b/src/amino_gl.c
index bbe3f96..dd0620a 100644
--- a/src/amino_gl.c
+++ b/src/amino_gl.c
@@ -1751,7 +1751,7 @@ aa_gl_globals_mask( struct aa_gl_globals *globals, size_t i, int value ) {
 
         globals->frame_mask_size = new_size;
         globals->frame_mask = (aa_bits*)realloc( globals->frame_mask, new_size );
-        memset( globals->frame_mask + old_size, 0, new_size - old_size );
+        memset( (uint8_t*)globals->frame_mask + old_size, 0, new_size - old_size );
     }
 
     aa_bits_set(globals->frame_mask, i, value);
-- 
2.43.0


From 9e6e6200be4b7d584d37137f781018624fb3c9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:38 +0000
Subject: [PATCH 78/80] fix: aa_gl_globals_destroy leaked the frame mask

---
 src/amino_gl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/amino_gl.c b/src/amino_gl.c
index dd0620a..e11988b 100644
--- a/src/amino_gl.c
+++ b/src/amino_gl.c
@@ -1555,6 +1555,7 @@ aa_gl_globals_create()
 void
 aa_gl_globals_destroy( struct aa_gl_globals *globals )
 {
+    aa_checked_free(globals->frame_mask);
     free(globals);
 }
 
-- 
2.43.0


From 69a9f694a7b1dd111daa743b9308efe5828554eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:38 +0000
Subject: [PATCH 79/80] fix: the grid mesh left its indices in the thread's
 memory region

---
 src/amino_gl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/amino_gl.c b/src/amino_gl.c
index e11988b..e0220d3 100644
--- a/src/amino_gl.c
+++ b/src/amino_gl.c
@@ -883,7 +883,7 @@ AA_API void aa_geom_gl_buffers_init_grid (
 
     tri_mesh( &geom->base, mesh );
 
-    aa_mem_region_local_pop(values);
+    aa_mem_region_local_pop(indices);
     aa_rx_mesh_destroy(mesh);
 }
 
-- 
2.43.0


From 65e2657b50584fc9af9e48dccb770a4d724e0046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:38 +0000
Subject: [PATCH 80/80] fix: aa_rx_errstr called an invalid state OK

---
 src/rx/errstr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rx/errstr.c b/src/rx/errstr.c
index b161df0..87d37a9 100644
--- a/src/rx/errstr.c
+++ b/src/rx/errstr.c
@@ -42,7 +42,8 @@ static const char *errstrs[] = {"no_solution",
                                 "no_inverse_kinematics",
                                 "no_motion_plan",
                                 "invalid_frame",
-                                "invalid_parameter" };
+                                "invalid_parameter",
+                                "invalid_state" };
 
 
 char *aa_rx_errstr( struct aa_mem_region *reg,
-- 
2.43.0

