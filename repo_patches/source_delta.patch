From 3308666c1907e8170a19aeba3ebcedbb2d24d39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:00 +0000
Subject: [PATCH 01/21] fix: conjugate the generic NC multab_dagdag product

The non-SSE general-NC branch returned transpose(b)*transpose(c) instead of
dagger(b)*dagger(c): the imaginary part of each product had the wrong sign.
---
 src/Matrix_Ops/MMUL/MMULdagdag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/MMUL/MMULdagdag.c b/src/Matrix_Ops/MMUL/MMULdagdag.c
index 5cd8171..b53af30 100755
--- a/src/Matrix_Ops/MMUL/MMULdagdag.c
+++ b/src/Matrix_Ops/MMUL/MMULdagdag.c
@@ -63,7 +63,7 @@ multab_dagdag( GLU_complex a[ NCNC ] ,
 	sumi += REB * IMC + IMB * REC ;
 	pB += NC ;
       }
-      a[ j + NC*i ] = sumr + I * sumi ;
+      a[ j + NC*i ] = sumr - I * sumi ;
       pC += NC ;
     }
   }
-- 
2.43.0


From 7058e6bd4acc03fd2eefbce4798f54dcecddb2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:13 +0000
Subject: [PATCH 02/21] fix: complete_plaquette return value in the non-SSE
 SU(2) build

The branch accumulated into tr but returned two undeclared names, so the
library did not compile for NC=2 without SSE.
---
 src/Field/plaqs_links.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field/plaqs_links.c b/src/Field/plaqs_links.c
index a2518d1..deabe2a 100755
--- a/src/Field/plaqs_links.c
+++ b/src/Field/plaqs_links.c
@@ -190,7 +190,7 @@ complete_plaquette( const GLU_complex *__restrict a ,
   tr += (double)creal( ( tra3 * conj(c[0]) + tra4 * conj(c[1]))*conj(d[2]) ) ;
   tr += (double)creal( ( tra3 * conj(c[2]) + tra4 * conj(c[3]))*conj(d[3]) ) ;
 
-  return tra + trb ;
+  return tr ;
   
   #endif
 #else
-- 
2.43.0


From a35e11f5487d1ac1b8e8b4f029751a0bccdae04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:14 +0000
Subject: [PATCH 03/21] fix: mat_mult_vec used the wrong element of the SU(3)
 matrix in its second row

---
 src/Matrix_Ops/U_Nops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/U_Nops.c b/src/Matrix_Ops/U_Nops.c
index 6d3a881..9e67b50 100755
--- a/src/Matrix_Ops/U_Nops.c
+++ b/src/Matrix_Ops/U_Nops.c
@@ -414,7 +414,7 @@ mat_mult_vec( GLU_complex vect[ NC ] ,
 {
 #if NC == 3
   vect[0] = S[0] * v[0] + S[1] * v[1] + S[2] * v[2] ; 
-  vect[1] = S[3] * v[0] + S[4] * v[1] + S[6] * v[2] ; 
+  vect[1] = S[3] * v[0] + S[4] * v[1] + S[5] * v[2] ; 
   vect[2] = S[6] * v[0] + S[7] * v[1] + S[8] * v[2] ; 
 #elif NC == 2
   vect[0] = S[ 0 ] * v[ 0 ] + S[ 1 ] * v[ 1 ] ;
-- 
2.43.0


From 59d9795bbeae2aac7ea6afd8852dcecc4d63d018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:14 +0000
Subject: [PATCH 04/21] fix: traceless diagonal of the generic NC
 AntiHermitian_proj_short

---
 src/Matrix_Ops/exactQ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 54dee52..27286d4 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -143,7 +143,7 @@ AntiHermitian_proj_short( GLU_complex Q[ HERMSIZE ] ,
   tr /= (GLU_real)NC ;
   for( i = 0 ; i < NC-1 ; i++ ) {
     for( j = i ; j < NC ; j++ ) { 
-      Q[idx] = ( i != j ) ? ( U[ j + NC * i ] - conj( U[ i + NC * j ] ) ) * 0.5 : I * cimag( U[ j + NC * i ] ) - tr ;
+      Q[idx] = ( i != j ) ? ( U[ j + NC * i ] - conj( U[ i + NC * j ] ) ) * 0.5 : I * ( cimag( U[ j + NC * i ] ) - tr ) ;
       idx++ ;
     }
   }
-- 
2.43.0


From 9a741c63650a0f6b146a9bc2f4606e198b576769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:45 +0000
Subject: [PATCH 05/21] fix: search the pivot of the SSE Gauss-Jordan inverse
 in the matrix, not in the partial inverse

---
 src/Matrix_Ops/invert_SSE.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/invert_SSE.c b/src/Matrix_Ops/invert_SSE.c
index f63b7e3..db01cc0 100644
--- a/src/Matrix_Ops/invert_SSE.c
+++ b/src/Matrix_Ops/invert_SSE.c
@@ -118,7 +118,7 @@ gauss_jordan( GLU_complex M_1[ NCNC ] ,
     piv = i ;
     best = absfac( *( pA + i*(NC+1) ) ) ;
     for( j = i+1 ; j < NC ; j++ ) {
-       attempt = absfac( *( pB + i + j*NC ) ) ;
+       attempt = absfac( *( pA + i + j*NC ) ) ;
       if( _mm_ucomilt_sd( best , attempt ) ) { 
 	piv = j ; 
 	best = attempt ; 
-- 
2.43.0


From 38fc1262bd63bf5dbf15a6e90d12eccf900fc065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:21 +0000
Subject: [PATCH 06/21] fix: get_site_2piBZ mapped the largest positive
 momentum of an odd direction outside the zone

---
 src/Geometry/geometry.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Geometry/geometry.c b/src/Geometry/geometry.c
index fc8bc4e..8e12cb3 100755
--- a/src/Geometry/geometry.c
+++ b/src/Geometry/geometry.c
@@ -43,15 +43,17 @@ get_site_2piBZ( int x[ ND ] ,
 		const size_t DIMS )
 {
   int temp[ND] ;
-  size_t mu , L_2 = 1 ;
+  size_t mu , L_2 = 1 , pi_edge = 1 ;
   for( mu = 0 ; mu < ND ; mu ++ ) {
     L_2 = Latt.dims[ mu ] >> 1 ;
+    // for odd L there is one more positive momentum than L/2
+    pi_edge = Latt.dims[ mu ] - L_2 ;
     temp[mu] = x[mu] ;
     if( mu != DIMS ) {
-      if( temp[ mu ] >= (int)L_2 ) {
+      if( temp[ mu ] >= (int)pi_edge ) {
 	temp [ mu ] -= (int)Latt.dims[ mu ] ;
       } 
-      if( temp[ mu ] < (int)L_2 ) {
+      if( temp[ mu ] < (int)pi_edge ) {
 	temp [ mu ] += (int)L_2 ;
       }
     } else { // fill the rest with 0's
-- 
2.43.0


From 7a5da405dba32442f8fef176371635621e7f1362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:26 +0000
Subject: [PATCH 07/21] fix: normalise plaquette averages by the number of
 planes for ND != 4

---
 src/Field/plaqs_links.c   | 6 +++---
 src/Smear/adaptive_flow.c | 2 +-
 src/Smear/wflow.c         | 2 +-
 src/Update/KPHB.c         | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Field/plaqs_links.c b/src/Field/plaqs_links.c
index deabe2a..f7566d3 100755
--- a/src/Field/plaqs_links.c
+++ b/src/Field/plaqs_links.c
@@ -234,8 +234,8 @@ all_plaquettes( const struct site *__restrict lat ,
     tplaq = tplaq + (double)p ;
   }
   *sp_plaq = 2.0 * spplaq / (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ;
-  *t_plaq  = 2.0 * tplaq /  (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ;
-  return 0.5 * ( *sp_plaq + *t_plaq ) ; 
+  *t_plaq  = tplaq / (double)( ( ND - 1 ) * NC * LVOLUME ) ;
+  return 2.0 * ( spplaq + tplaq ) / (double)( NC * ND * ( ND - 1 ) * LVOLUME ) ; 
 }
 
 // average plaquette
@@ -339,7 +339,7 @@ t_plaq( const struct site *__restrict lat )
     }
     plaq = plaq + (double)p ;
   }
-  return 2.0 * ( plaq ) / (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ; 
+  return plaq / (double)( ( ND - 1 ) * NC * LVOLUME ) ; 
 }
 
 // sexy wrapper for the topological charge measurements to be called in parallel
diff --git a/src/Smear/adaptive_flow.c b/src/Smear/adaptive_flow.c
index c895a77..ff4e0fa 100755
--- a/src/Smear/adaptive_flow.c
+++ b/src/Smear/adaptive_flow.c
@@ -78,7 +78,7 @@ get_plaq_th( struct site *lat ,
   for( size_t k = 0 ; k < Latt.Nthreads ; k++ ) {
     new_plaq += WF.red[ 3 + CLINE*k ] ;
   }
-  return new_plaq/( NC * ( ND-1 ) * ( ND - 2 ) * LVOLUME ) ;
+  return 2.0*new_plaq/( NC * ND * ( ND-1 ) * LVOLUME ) ;
 }
 
 // two step adaptive routine
diff --git a/src/Smear/wflow.c b/src/Smear/wflow.c
index d0eff63..c266f1f 100755
--- a/src/Smear/wflow.c
+++ b/src/Smear/wflow.c
@@ -124,7 +124,7 @@ flow_RK3( struct site *__restrict lat ,
       for( k = 0 ; k < Latt.Nthreads ; k++ ) {
 	new_plaq += WF.red[ 3 + CLINE*k ] ;
       }
-      new_plaq /= ( NC * ( ND-1 ) * ( ND - 2 ) * LVOLUME ) ;
+      new_plaq *= 2.0 / ( NC * ND * ( ND-1 ) * LVOLUME ) ;
       update_meas_list( head , curr , WF.red ,
 			new_plaq , t , delta_t ,
 			err_est , lat ) ;
diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index b5338a3..b73b185 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -63,7 +63,7 @@ perform_measurements( double *PLAQred ,
   {
     // write out the plaquette
     fprintf( stdout , "[UPDATE] %zu :: {P} %1.12f \n" , 
-	     conf_idx , pl/( NC*(ND-1)*(ND-2)*LVOLUME ) ) ;
+	     conf_idx , 2.0*pl/( NC*ND*(ND-1)*LVOLUME ) ) ;
   }
 
   // icc really hates this for some reason
-- 
2.43.0


From f453eb8f058dcd54e67249deb8139859adaefd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:03 +0000
Subject: [PATCH 08/21] fix: SU(2) time-constancy check compared the first
 slice's diagonal with itself

---
 src/Gfix/gftests.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Gfix/gftests.c b/src/Gfix/gftests.c
index a3eccc5..e4a8c72 100755
--- a/src/Gfix/gftests.c
+++ b/src/Gfix/gftests.c
@@ -94,11 +94,11 @@ const_time( const struct site *__restrict lat ,
 
       #elif NC == 2
 
-      register const double re0 = creal( sum1[0] ) - creal( sum1[0] ) ;
+      register const double re0 = creal( sum1[0] ) - creal( sum2[0] ) ;
       av += (double)fabs( re0 ) ; 
       av += (double)cabs( sum1[1] - sum2[1] ) ;
       // log def
-      register const double rel0 = creal( sum1[0] ) - creal( sum1[0] ) ;
+      register const double rel0 = creal( sum1_log[0] ) - creal( sum2_log[0] ) ;
       avlog += (double)fabs( rel0 ) ; 
       avlog += (double)cabs( sum1_log[1] - sum2_log[1] ) ;
 
-- 
2.43.0


From 780057d837f263794db206f73ffaf70ad5922929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:03 +0000
Subject: [PATCH 09/21] fix: theta tests could lose the maximum when two
 threads updated it at once

---
 src/Gfix/gftests.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Gfix/gftests.c b/src/Gfix/gftests.c
index e4a8c72..14229d0 100755
--- a/src/Gfix/gftests.c
+++ b/src/Gfix/gftests.c
@@ -236,7 +236,7 @@ theta_test_lin( const struct site *__restrict lat ,
     #ifdef GLU_OMP_MEAS
     if( res > *max ) { 
       omp_set_lock( &writelock ) ;
-      *max = res ;
+      if( res > *max ) { *max = res ; }
       omp_unset_lock( &writelock ) ;
     } 
     #else
@@ -276,7 +276,7 @@ theta_test_log( const struct site *__restrict lat ,
     #ifdef GLU_OMP_MEAS
     if( res > *max ) { 
       omp_set_lock( &writelock ) ;
-      *max = res ;
+      if( res > *max ) { *max = res ; }
       omp_unset_lock( &writelock ) ;
     } 
     #else
-- 
2.43.0


From 4b682a860e963899710dde4cb4c639b7ca0733db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:04 +0000
Subject: [PATCH 10/21] fix: SU(2) fast derivative returned a quarter of the
 trace that the other derivative routines return

---
 src/Gfix/lin_derivs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Gfix/lin_derivs.c b/src/Gfix/lin_derivs.c
index 2cd6c36..c5659e2 100755
--- a/src/Gfix/lin_derivs.c
+++ b/src/Gfix/lin_derivs.c
@@ -187,7 +187,7 @@ fast_deriv_AntiHermitian_proj( GLU_complex sum[ HERMSIZE ] ,
   *( sum + 0 ) = REsum0 ;
   *( sum + 1 ) = -I * REsum1 + IMsum1 ;
 
-  return ( REsum0 * REsum0 + REsum1 * REsum1 + IMsum1 * IMsum1 ) ;
+  return 4.0 * ( REsum0 * REsum0 + REsum1 * REsum1 + IMsum1 * IMsum1 ) ;
 
 #endif
 }
-- 
2.43.0


From 97cb0c7d4349dd73012259dcbc4595ce8d760dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:04 +0000
Subject: [PATCH 11/21] fix: releasing a field that was never allocated must
 not dereference it

---
 src/Utils/GLU_malloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Utils/GLU_malloc.c b/src/Utils/GLU_malloc.c
index 53acd8d..7c317a3 100644
--- a/src/Utils/GLU_malloc.c
+++ b/src/Utils/GLU_malloc.c
@@ -75,6 +75,7 @@ void
 free_lat( struct site *lat )
 {
   size_t i ;
+  if( lat == NULL ) { return ; }
   #pragma omp parallel for private(i)
   for( i = 0 ; i < LVOLUME ; i++ ) {
     size_t mu ;
@@ -129,6 +130,7 @@ free_s_site( struct s_site *lat ,
 {
 
   size_t i ;
+  if( lat == NULL ) { return ; }
 #pragma omp parallel for private(i)
   for( i = 0 ; i < LENGTH1 ; i++ ) {
     size_t mu ;
-- 
2.43.0


From 847df289940bbf98326c1fc0dc8ad549db7f007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:04 +0000
Subject: [PATCH 12/21] fix: smear3D releases its temporary field when the
 projection type is unknown

---
 src/Smear/smear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Smear/smear.c b/src/Smear/smear.c
index 64a30f1..27ebc21 100755
--- a/src/Smear/smear.c
+++ b/src/Smear/smear.c
@@ -84,7 +84,7 @@ smear3D( struct site *__restrict lat ,
   default :
     fprintf( stderr , "[SMEAR] Unrecognised type [ %d ] ... Leaving \n" , 
 	     type ) ; 
-    return GLU_FAILURE ;
+    FLAG = GLU_FAILURE ; goto memfree ;
   }
 
 #pragma omp parallel
-- 
2.43.0


From 856f27b5537a7350d841ff8acc5f2cdde09dbd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:51 +0000
Subject: [PATCH 13/21] fix: draughtboard colouring of odd lattice extents
 L%3==1

For L=7,13,... the sites n=0 and n=L-1 are neighbours but were given the same
colour, so parallel updates were not independent.
---
 src/Geometry/draughtboard.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Geometry/draughtboard.c b/src/Geometry/draughtboard.c
index f857884..9b79ef9 100644
--- a/src/Geometry/draughtboard.c
+++ b/src/Geometry/draughtboard.c
@@ -59,7 +59,9 @@ get_midx( const size_t i ,
     if( ( Latt.dims[mu]&1 ) == 0 ) {
       even_sum += n[mu] ;
     } else {
-      odd_sum  += n[mu] ;
+      // for L%3==1 the last site would get the color of its neighbor n==0
+      odd_sum  += ( Latt.dims[mu]%3 == 1 && Latt.dims[mu] > 1 &&
+		    (size_t)n[mu] == Latt.dims[mu]-1 ) ? 1 : n[mu] ;
     }
   }
 #ifdef verbose
-- 
2.43.0


From ae78b3b07f1e42ccdd1ccd143900f9323a9ec503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:51 +0000
Subject: [PATCH 14/21] fix: Vandermonde solvers skip the last
 back-substitution step

The conversion of the Newton form needs the node x[0] as well, otherwise the
matrix exponential of NC>3 with GSL or LAPACK is wrong.
---
 src/Matrix_Ops/vandermonde.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Matrix_Ops/vandermonde.c b/src/Matrix_Ops/vandermonde.c
index 0286a3c..399cd8c 100755
--- a/src/Matrix_Ops/vandermonde.c
+++ b/src/Matrix_Ops/vandermonde.c
@@ -36,7 +36,7 @@ solvandermonde( double complex f[ NC ] ,
     }
   }
   /// plug in values for the interpolator ///
-  for( k = NC - 1 ; k != 0 ; k-- ) {
+  for( k = NC - 1 ; k-- > 0 ; ) {
     for(i = k ; i < NC - 1 ; i++ ) {
       f[i] = f[i] - ( f[ i + 1 ] * x[k] ) ;
     }
@@ -68,7 +68,7 @@ solvandermonde_new( const double q[ NC ] ,
     }
   }
   /// plug in values for the interpolator ///
-  for( k = NC - 1 ; k != 0 ; k-- ) {
+  for( k = NC - 1 ; k-- > 0 ; ) {
     for(i = k ; i < NC - 1 ; i++ ) {
       f[ i ] -= ( f[ i + 1 ] * q[k] ) ;
     }
-- 
2.43.0


From dc5d71a1c31a1145ce8f654e32518540e18e3e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:51 +0000
Subject: [PATCH 15/21] fix: small-angle expansion of sin(z)/z for SU(2)

The expansion is in z^2, not in z: exponential and logarithm of SU(2) were off
by a relative error of z/6 below the cut-off.
---
 src/Matrix_Ops/effs.c   | 2 +-
 src/Matrix_Ops/exactQ.c | 4 ++--
 src/Matrix_Ops/expMat.c | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Matrix_Ops/effs.c b/src/Matrix_Ops/effs.c
index 990cc9b..6455a4f 100755
--- a/src/Matrix_Ops/effs.c
+++ b/src/Matrix_Ops/effs.c
@@ -95,7 +95,7 @@ f_hermitian_log_suNC( double complex f[ NC ] ,
   f[2] *= denom ;  
 #elif NC == 2
   f[0] = cos( z ) ;
-  f[1] = ( fabs( z ) < SINTOLSU2 ) ? I * ( 1 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : I * sin( z ) / z ; 
+  f[1] = ( fabs( z ) < SINTOLSU2 ) ? I * ( 1 - z*z / 6. * ( 1 - z*z / 20. * ( 1 - z*z / 42. ) ) ) : I * sin( z ) / z ; 
 #else
   calculate_effs_VDM_suNC( f , z ) ;
 #endif
diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 27286d4..cfe2c93 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -196,7 +196,7 @@ exact_log_slow( GLU_complex Q[ NCNC ] ,
   const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
   const double herm_z = carg( z ) ;
   const double f0 = creal( z ) ; //cos( herm_z ) ;
-  const double f1 = ( fabs(herm_z) < SINTOLSU2 ) ? ( 1. - herm_z / 6. * ( 1. - herm_z / 20. * ( 1. - herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
+  const double f1 = ( fabs(herm_z) < SINTOLSU2 ) ? ( 1. - herm_z*herm_z / 6. * ( 1. - herm_z*herm_z / 20. * ( 1. - herm_z*herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
 
   // use Cayley-Hamilton again A = ( U - f0 ) / f1 //
   // for su2 this is nice as they both tend to 1
@@ -294,7 +294,7 @@ exact_log_slow_short( GLU_complex Q[ HERMSIZE ] ,
   const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
   const double herm_z = carg( z ) ;
   const double f0 = reU0 ; //cos( herm_z ) ;
-  const double f1 = ( fabs( herm_z ) < SINTOLSU2 ) ? ( 1 - herm_z / 6. * ( 1 - herm_z / 20. * ( 1 - herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
+  const double f1 = ( fabs( herm_z ) < SINTOLSU2 ) ? ( 1 - herm_z*herm_z / 6. * ( 1 - herm_z*herm_z / 20. * ( 1 - herm_z*herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
   register const double complex oneOf1 = -I / ( f1 ) ;
   // use Cayley-Hamilton again A = ( U - f0 ) / f1 //
   // for su2 this is nice as they both tend to 1
diff --git a/src/Matrix_Ops/expMat.c b/src/Matrix_Ops/expMat.c
index a283c29..17b567a 100755
--- a/src/Matrix_Ops/expMat.c
+++ b/src/Matrix_Ops/expMat.c
@@ -276,7 +276,7 @@ exponentiate( GLU_complex U[ NCNC ] ,
   // have eigenvalues, now for the "fun" bit.
   f0 = cos( z ) ;
   // taylor expand 
-  f1 = fabs ( z ) < SINTOLSU2 ? ( 1 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : sin( z ) / z ;
+  f1 = fabs ( z ) < SINTOLSU2 ? ( 1 - z*z / 6. * ( 1 - z*z / 20. * ( 1 - z*z / 42. ) ) ) : sin( z ) / z ;
 
   const double complex f1Q0 = I * f1 * creal( Q[0] ) ;
   const double complex f1Q1 = I * f1 * Q[1] ;
@@ -501,7 +501,7 @@ exponentiate_short( GLU_complex U[ NCNC ] ,
   // have eigenvalues, now for the "fun" bit.
   f0 = cos( z ) ;
   // taylor expand 
-  f1 = fabs ( z ) < SINTOLSU2 ? ( 1.0 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : sin( z ) / z ;
+  f1 = fabs ( z ) < SINTOLSU2 ? ( 1.0 - z*z / 6. * ( 1 - z*z / 20. * ( 1 - z*z / 42. ) ) ) : sin( z ) / z ;
 
   const double complex f1Q0 = I * f1 * Q[0] ;
   const double complex f1Q1 = I * f1 * Q[1] ;
-- 
2.43.0


From 526b7566f0b430b3cfaa9c2b3456db08a2e3732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:51 +0000
Subject: [PATCH 16/21] fix: SU(3) exponential of matrices with degenerate
 eigenvalues

Rounding can push c0/c0_max above one, where acos and the result are NaN.
---
 src/Matrix_Ops/expMat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Matrix_Ops/expMat.c b/src/Matrix_Ops/expMat.c
index 17b567a..2ed1cf3 100755
--- a/src/Matrix_Ops/expMat.c
+++ b/src/Matrix_Ops/expMat.c
@@ -207,7 +207,7 @@ exponentiate( GLU_complex U[ NCNC ] ,
   // compute the constants c0_max and the root of c1 ...
   const double rc1 = sqrt( c1 ) ;
   const double c0_max = 2. * rc1 * c1 ; 
-  const double theta = acos( c0 / c0_max ) / 3. ;
+  const double theta = acos( fmin( c0 / c0_max , 1.0 ) ) / 3. ;
 
   // use sincos as it is cheaper
   double s , c ;
@@ -427,7 +427,7 @@ exponentiate_short( GLU_complex U[ NCNC ] ,
     // compute the constants c0_max and the root of c1 ...
   const double rc1 = sqrt( c1 ) ;
   const double c0_max = 2. * rc1 * c1 ; 
-  const double theta = acos( c0 / c0_max ) / 3. ;
+  const double theta = acos( fmin( c0 / c0_max , 1.0 ) ) / 3. ;
 
   // use sincos as it is cheaper
   double s , c ;
-- 
2.43.0


From 4895dd980b06eca03cacb33fc44d9c1fec67511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:21 +0000
Subject: [PATCH 17/21] fix: SU(2) logarithm of links equal to the identity up
 to rounding

Rounding can push Re U[0] above one, where the square root and the result are NaN.
---
 src/Matrix_Ops/exactQ.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index cfe2c93..2e4353f 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -193,7 +193,7 @@ exact_log_slow( GLU_complex Q[ NCNC ] ,
 #elif NC == 2
   // inlined the two necessary routines ...
   register const double reU0 = (double)creal( U[0] ) ;
-  const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
+  const double complex z = reU0 + I * sqrt ( fmax( 1.0 - reU0 * reU0 , 0.0 ) ) ;
   const double herm_z = carg( z ) ;
   const double f0 = creal( z ) ; //cos( herm_z ) ;
   const double f1 = ( fabs(herm_z) < SINTOLSU2 ) ? ( 1. - herm_z*herm_z / 6. * ( 1. - herm_z*herm_z / 20. * ( 1. - herm_z*herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
@@ -291,7 +291,7 @@ exact_log_slow_short( GLU_complex Q[ HERMSIZE ] ,
   *( Q + 4 ) = trce * ( con * U[5] - f[2] * conj( U[7] ) ) ; 
 #elif NC == 2
   register const double reU0 = (double)creal( U[0] ) ;
-  const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
+  const double complex z = reU0 + I * sqrt ( fmax( 1.0 - reU0 * reU0 , 0.0 ) ) ;
   const double herm_z = carg( z ) ;
   const double f0 = reU0 ; //cos( herm_z ) ;
   const double f1 = ( fabs( herm_z ) < SINTOLSU2 ) ? ( 1 - herm_z*herm_z / 6. * ( 1 - herm_z*herm_z / 20. * ( 1 - herm_z*herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
-- 
2.43.0


From 24ca128208faa9b239a1e340b89a1101c1299ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:21 +0000
Subject: [PATCH 18/21] fix: SU(3) logarithm of links at or very close to the
 identity

The eigenvalues are degenerate there: the result was NaN, dominated by rounding,
or (exact_log_slow at the identity) not written at all.
---
 src/Matrix_Ops/exactQ.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 2e4353f..589d5a2 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -158,6 +158,12 @@ exact_log_slow( GLU_complex Q[ NCNC ] ,
 		const GLU_complex U[ NCNC ] ) 
 {
 #if NC == 3   
+  // close to the identity the eigenvalues are degenerate, but there the
+  // hermitian projection is the logarithm up to the cube of its size
+  if( 1.0 - ( creal( U[0] ) + creal( U[4] ) + creal( U[8] ) )/3. < 1E-12 ) {
+    Hermitian_proj( Q , U ) ;
+    return ;
+  }
   double complex f[ NC ] , z[ NC ] ;
   Eigenvalues_suNC( z , U ) ; 
   z[0] = carg( z[0] ) ; 
@@ -165,9 +171,6 @@ exact_log_slow( GLU_complex Q[ NCNC ] ,
   // This is now "numerically stable", just as the MP prescription
   // logically the log of these gives the hermitian z's
   z[2] = -( z[0] - z[1] ) ; 
-  if( ( z[0] == z[1] ) && ( z[1] == z[2] ) ) {
-    return ;
-  }
   f_hermitian_log_suNC( f , z ) ;
 
   // I think we can do better
@@ -244,6 +247,12 @@ exact_log_slow_short( GLU_complex Q[ HERMSIZE ] ,
 		      const GLU_complex U[ NCNC ] )
 {
 #if NC == 3 
+  // close to the identity the eigenvalues are degenerate, but there the
+  // hermitian projection is the logarithm up to the cube of its size
+  if( 1.0 - ( creal( U[0] ) + creal( U[4] ) + creal( U[8] ) )/3. < 1E-12 ) {
+    Hermitian_proj_short( Q , U ) ;
+    return ;
+  }
   double complex f[NC] , z[NC] ;
   Eigenvalues_suNC( z , U ) ; 
   z[0] = carg( z[0] ) ; 
-- 
2.43.0


From 65ea5580a60b3eea42fbec81b06d0364fcf5ff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:07 +0000
Subject: [PATCH 19/21] fix: slice-by-slice writer indexes its one-slice buffer
 from the start of the slice

copy_data() filled the buffer at the global site offset, so on every time
slice after the first the memory-cheap writer overran its allocation and
wrote out stale numbers.
---
 src/IO/writers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IO/writers.c b/src/IO/writers.c
index 48554ef..6d375d8 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -266,7 +266,7 @@ copy_data( GLU_real *uout ,
     grab_sitedata( site , lat[i] , LOOP_VAR , checktype ) ;
 
     // set this up here
-    const size_t val = (size_t)( LOOP_VAR * ( i * ND ) ) ;
+    const size_t val = (size_t)( LOOP_VAR * ( ( i - START ) * ND ) ) ;
     for( size_t j = 0 ; j < ND*LOOP_VAR ; j++ ) {
 #ifdef OUT_DOUBLE
       uout[ val + j ] = (double)site[ j ] ;
-- 
2.43.0


From ce1bad549029aa4566498b3a156915ff0173aa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:07 +0000
Subject: [PATCH 20/21] fix: BQCD checksum of double-precision files reads the
 double-precision buffer

The memory-expensive reader ran the checksum over the float buffer, which is
not allocated when the file is in double precision.
---
 src/IO/readers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/IO/readers.c b/src/IO/readers.c
index 5022953..429726b 100755
--- a/src/IO/readers.c
+++ b/src/IO/readers.c
@@ -213,8 +213,8 @@ lattice_reader_suNC( struct site *lat ,
       size_t i ;
       for( i = 0 ; i < LVOLUME ; i++ ) {
 	// BQCD's
-	CKSUM_ADD( ( uin + ( i * ND * LOOP_VAR ) ) , 
-		   sizeof(float) * ND * LOOP_VAR ) ;
+	CKSUM_ADD( ( uind + ( i * ND * LOOP_VAR ) ) , 
+		   sizeof(double) * ND * LOOP_VAR ) ;
       }
       uint32_t nbytes ;
       CKSUM_GET( &CRC_BQCD , &nbytes ) ;
-- 
2.43.0


From 6765bf68752c654b97c4b08506385508e5f9021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:35 +0000
Subject: [PATCH 21/21] fix: SU(2) HiRep writer stores the four real parameters
 the reader expects

For NC=2 the writer stored the first row as complex pairs while
read_gauge_field() reads the (u0,u1,u2,u3) layout, so a configuration written
by GLU could not be read back.
---
 src/IO/HIREP.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/IO/HIREP.c b/src/IO/HIREP.c
index 0b58f63..87fbbdd 100755
--- a/src/IO/HIREP.c
+++ b/src/IO/HIREP.c
@@ -163,6 +163,17 @@ write_gauge_field( const struct site *__restrict lat ,
     // loop HiRep indices
     const size_t idx = translate_to_GLU_geom( i ) ;
     size_t mu , j , a = 0 ;
+#if NC==2
+    // the four real parameters read_gauge_field() expects, t first then xyz
+    for( j = 0 ; j < ND ; j++ ) {
+      mu = ( j + ND - 1 ) % ND ;
+      uoutd[ a + 0 ] = ( double )creal( lat[idx].O[mu][0] ) ;
+      uoutd[ a + 1 ] = ( double )cimag( lat[idx].O[mu][1] ) ;
+      uoutd[ a + 2 ] = -( double )creal( lat[idx].O[mu][1] ) ;
+      uoutd[ a + 3 ] = ( double )cimag( lat[idx].O[mu][0] ) ;
+      a += 2 * mat_stride ;
+    }
+#else
     // t first
     for( j = 0 ; j < mat_stride ; j++ ) {
       uoutd[ a + 0 ] = ( double )creal( lat[idx].O[ ND - 1 ][ j ] ) ; 
@@ -177,6 +188,7 @@ write_gauge_field( const struct site *__restrict lat ,
 	a += 2 ;
       }
     } 
+#endif
     #ifdef OUT_BIG
     if( !WORDS_BIGENDIAN ) {
       bswap_64( stride , uoutd ) ; 
-- 
2.43.0

