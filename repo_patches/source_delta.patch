From 04f9a74d357fede12f1f6e588ebd269e23b258a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:09 +0000
Subject: [PATCH 01/16] fix: charpoly of the 0x0 matrix wrote past the end of
 its power sums

---
 matrix/charpoly.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/charpoly.cc b/matrix/charpoly.cc
index 046443b..ed84728 100644
--- a/matrix/charpoly.cc
+++ b/matrix/charpoly.cc
@@ -26,7 +26,8 @@ Vec<ZZ> charpoly(const Mat<ZZ> M) {
     p.SetLength(n+1);
     NTL::set(e[0]);
     NTL::set(result[n]);
-    p[1] = trace(M);
+    if( n > 0 )
+        p[1] = trace(M);
 
     powerM = M;
 
-- 
2.43.0


From 65b2ac2f563a610d31e0d98e9e33d95043abe7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:09 +0000
Subject: [PATCH 02/16] fix: solve_system_padic kept old entries of U when T
 has no columns

---
 solve_system/solve_system.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solve_system/solve_system.cc b/solve_system/solve_system.cc
index 885005a..b47f401 100644
--- a/solve_system/solve_system.cc
+++ b/solve_system/solve_system.cc
@@ -343,6 +343,7 @@ void solve_system_padic_flint(Vec<int64_t> &B, Mat<ZZ_p> &U, const Mat<ZZ_p> &T,
     {
         B.SetLength(nrows);
         U.SetDims(nrows,nrows);
+        clear(U);
         for(i = 0; i < nrows; i++)
         {
             B[i] = i;
@@ -501,6 +502,7 @@ void solve_system_padic_NTL(Vec<int64_t> &B, Mat<ZZ_p> &U, const Mat<ZZ_p> &T, i
     {
         B.SetLength(nrows);
         U.SetDims(nrows,nrows);
+        clear(U);
         for(i = 0; i < nrows; i++)
         {
             B[i] = i;
-- 
2.43.0


From 893cfcabf696ca2dc7d6dce5ab41f0f43ba343bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 03/16] fix: charpoly_frob deduced the wrong sign for p = 2
 when 2*cp[i] vanishes

---
 matrix/charpoly_frob.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/charpoly_frob.cc b/matrix/charpoly_frob.cc
index 270a76c..0fa5ab9 100644
--- a/matrix/charpoly_frob.cc
+++ b/matrix/charpoly_frob.cc
@@ -34,7 +34,8 @@ Vec<ZZ> charpoly_frob(const Mat<ZZ> M,  Vec<int64_t> prec, const int64_t p, cons
         // for odd case the sign is 1
         for (int64_t i = 1; i <= degree/2; ++i) {
             ZZ p_power = power_ZZ(p, std::min(prec[i], prec[degree - i] + ((degree-2*i)*dimension) /2));
-            if( cp[i] % p_power !=0 &&  cp[degree-i] % p_power != 0) {
+            // 2*cp[i] = 0 is compatible with both signs, this can only happen if p = 2
+            if( (2 * cp[i]) % p_power !=0 &&  cp[degree-i] % p_power != 0) {
                 if (0 == (cp[i] + cp[degree - i] * power_ZZ(p, ((degree-2*i)*dimension) /2)) %  p_power )
                     signal = -1;
                 else {
-- 
2.43.0


From 0c8ec23b0c3c850173c9e30bed8f319c07131754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 04/16] fix: binomial returned a negative number for values
 between 2^63 and 2^64

---
 tools/binomial.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/binomial.cc b/tools/binomial.cc
index 1ed321d..a198324 100644
--- a/tools/binomial.cc
+++ b/tools/binomial.cc
@@ -25,7 +25,7 @@ int64_t binomial(const int64_t n, int64_t k)
         den *=i;
     }
     num = num/den;
-    assert( NumBytes(num) <= 8 );
+    assert( NumBits(num) <= 63 );
     return int64_t{conv<long>(num)};
 }
 
-- 
2.43.0


From 9f013621ac0f151aa0f0c91c6a6f6052f6cb659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:24 +0000
Subject: [PATCH 05/16] fix: conv between mpz_t arrays and matrices misplaced
 the entries of non-square matrices

---
 conv/conv.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conv/conv.cc b/conv/conv.cc
index 97aa639..fd2f261 100644
--- a/conv/conv.cc
+++ b/conv/conv.cc
@@ -69,7 +69,7 @@ void conv(mpz_t* A, const Mat<ZZ> &B)
     {
         for(j = 0; j < colsB; j++)
         {
-            conv(A[i*rowsB+j], B[i][j]);
+            conv(A[i*colsB+j], B[i][j]);
         }
     }
 }
@@ -83,7 +83,7 @@ void conv(Mat<ZZ> &A, mpz_t* B, int64_t rowsB, int64_t colsB)
     {
         for(j = 0; j < colsB; j++)
         {
-            conv(A[i][j], B[i*rowsB + j]);
+            conv(A[i][j], B[i*colsB + j]);
         }
     }
 
-- 
2.43.0


From e6b8b7953ef414f92dcaa01d92d3b6de101827f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:24 +0000
Subject: [PATCH 06/16] fix: products of mpz_t matrices used the wrong stride
 for non-square matrices

---
 matrix/mul.cc          | 10 ++++++----
 matrix/mul_tranpose.cc |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/matrix/mul.cc b/matrix/mul.cc
index e03bec4..3c4caf6 100644
--- a/matrix/mul.cc
+++ b/matrix/mul.cc
@@ -28,10 +28,10 @@ void mul(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t* B, int64_
             mpz_set_ui(acc,0);
             for(k = 0; k < rowsB; k++)
             {
-                mpz_mul(tmp, A[i*rowsA + k], B[k*rowsB + j]);
+                mpz_mul(tmp, A[i*colsA + k], B[k*colsB + j]);
                 mpz_add(acc,acc,tmp);
             }
-            mpz_set(result[i*rowsA + j],acc);
+            mpz_set(result[i*colsB + j],acc);
         }
     }
     mpz_clears(tmp, acc, NULL);
@@ -46,7 +46,7 @@ void mul(mpz_t* result, mpz_t a, mpz_t* A, int64_t rowsA, int64_t colsA)
     {
         for(j = 0; j < colsA; j++)
         {
-            mpz_mul(result[i*rowsA+j], a, A[i*rowsA+j]);
+            mpz_mul(result[i*colsA+j], a, A[i*colsA+j]);
         }
     }
 }
@@ -63,11 +63,12 @@ void mul(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t* v, int64_
         mpz_set_ui(acc,0);
         for(j = 0; j < colsA; j++)
         {
-            mpz_mul(tmp,A[i*rowsA +j],v[j]);
+            mpz_mul(tmp,A[i*colsA +j],v[j]);
             mpz_add(acc,acc,tmp);
         }
         mpz_set(result[i],acc);
     }
+    mpz_clears(tmp, acc, NULL);
 }
 // result = a * v;
 void mul(mpz_t* result, mpz_t a, mpz_t* v, int64_t v_length)
@@ -101,6 +102,7 @@ void mul(mpz_t &result, mpz_t* u, int64_t u_length, mpz_t* v, int64_t v_length)
         mpz_mul(tmp,u[i],v[i]);
         mpz_add(result, result, tmp);
     }
+    mpz_clear(tmp);
 }
 
 //Some routines for fmpz_{mat,vec} and nmod_{mat,vec}
diff --git a/matrix/mul_tranpose.cc b/matrix/mul_tranpose.cc
index 48a6a38..e0d2704 100644
--- a/matrix/mul_tranpose.cc
+++ b/matrix/mul_tranpose.cc
@@ -55,10 +55,10 @@ void mul_transpose(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t*
             mpz_set_ui(acc,0);
             for(k = 0; k < rowsB; k++)
             {
-                mpz_mul(tmp, A[i*rowsA + k], B[j*colsB + k]);
+                mpz_mul(tmp, A[i*colsA + k], B[j*rowsB + k]);
                 mpz_add(acc,acc,tmp);
             }
-            mpz_set(result[i*rowsA + j],acc);
+            mpz_set(result[i*colsB + j],acc);
         }
     }
     mpz_clears(tmp, acc,NULL);
-- 
2.43.0


From 6e31c25a124e539939b5a53e1f13dd32e786bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:42 +0000
Subject: [PATCH 07/16] fix: finite differences: keep every entry the higher
 coefficients touch

The j-th difference of M(Y) involves all the M_i with i >= j, not only M_j; the
supports have to be accumulated.  The search for the degree of M read before the
beginning of the arrays and ran away when all the M_i vanish.
---
 dr_nd/dr_nd.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index f682f4a..bbfb54a 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -1907,12 +1907,20 @@ void finitediff_flint_nmod(fmpz * result, fmpz_mat_struct * M_fmpz, const int64_
         }
     }
     i = n + 1;
-    while( max_row[i] == 0 and min_col[i] == d and i >= 0)
+    while( i > 0 and max_row[i] == 0 and min_col[i] == d)
     {
         //M[i] = 0;
         n--;
         i--;
     }
+    // the j-th differences involve all the M[i] with i >= j
+    for(i = n; i >= 0; i--)
+    {
+        if(max_row[i] < max_row[i + 1])
+            max_row[i] = max_row[i + 1];
+        if(min_col[i] > min_col[i + 1])
+            min_col[i] = min_col[i + 1];
+    }
 
 
 
-- 
2.43.0


From d5384f7ce0d3826b765b6fe36d2db75fe17fcf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:00 +0000
Subject: [PATCH 08/16] fix: save: the name of the .swp file overflowed its
 buffer

sizeof(filename) is the size of a pointer, so any name longer than seven
characters was written past the end of the array.
---
 dr/save.cc     | 8 +++-----
 dr_nd/dr_nd.cc | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/dr/save.cc b/dr/save.cc
index 4354562..0cce25a 100644
--- a/dr/save.cc
+++ b/dr/save.cc
@@ -10,10 +10,8 @@ bool de_Rham_local::save(const char * filename)
         cout <<"Saving de_Rham_local to: "<< filename << endl;
 
     ofstream fileswp;
-    char fileswpname[sizeof(filename)+4];
-    strcpy(fileswpname, filename);
-    strcat(fileswpname,".swp");
-    fileswp.open(fileswpname);
+    string fileswpname = string(filename) + ".swp";
+    fileswp.open(fileswpname.c_str());
 
     int64_t i;
     ofstream file;
@@ -51,7 +49,7 @@ bool de_Rham_local::save(const char * filename)
         file << solve_pair->second <<endl;
         file.close();
         fileswp.close();
-        remove(fileswpname);
+        remove(fileswpname.c_str());
         return true;
     }
     else
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index bbfb54a..6204915 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -248,10 +248,8 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
         cout <<"Saving de_Rham_non_degenerate_local to: "<< filename << endl;
 
     ofstream fileswp;
-    char fileswpname[sizeof(filename)+4];
-    strcpy(fileswpname, filename);
-    strcat(fileswpname,".swp");
-    fileswp.open(fileswpname);
+    string fileswpname = string(filename) + ".swp";
+    fileswp.open(fileswpname.c_str());
 
     int64_t i;
     ofstream file;
@@ -305,7 +303,7 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
 
         file.close();
         fileswp.close();
-        remove(fileswpname);
+        remove(fileswpname.c_str());
         return true;
     }
     else
-- 
2.43.0


From a0187db344f8c3998f6dd1abf2d03f324d44f506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:00 +0000
Subject: [PATCH 09/16] fix: save: report failing writes

When the disk was full the truncated file was presented as a complete one: the
result was true and the .swp marker was removed.  The non-degenerate version also
went on without a marker when the marker could not be created.
---
 dr/save.cc     | 5 +++++
 dr_nd/dr_nd.cc | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/dr/save.cc b/dr/save.cc
index 0cce25a..77cc463 100644
--- a/dr/save.cc
+++ b/dr/save.cc
@@ -49,6 +49,11 @@ bool de_Rham_local::save(const char * filename)
         file << solve_pair->second <<endl;
         file.close();
         fileswp.close();
+        if(file.fail())
+        {
+            cout << "Wasn't able to write "<<filename<<endl;
+            return false;
+        }
         remove(fileswpname.c_str());
         return true;
     }
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index 6204915..9a26ca6 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -265,7 +265,7 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
 
 
 
-    if(file.is_open())
+    if(file.is_open() && fileswp.is_open())
     {
         file << p <<endl;
         file << precision <<endl;
@@ -303,6 +303,11 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
 
         file.close();
         fileswp.close();
+        if(file.fail())
+        {
+            cout << "Wasn't able to write "<<filename<<endl;
+            return false;
+        }
         remove(fileswpname.c_str());
         return true;
     }
-- 
2.43.0


From e92d7a25d05103747518af39c2802a47a3f64f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:00 +0000
Subject: [PATCH 10/16] fix: save: keep f, not only its reduction

Only fbar was written, so an object whose f is not the naive lift of fbar came
back with another f next to the tables of the old one.  Files written before are
read as they were.
---
 dr/constructors.cc | 14 +++++++-------
 dr/save.cc         | 12 ++++++------
 dr_nd/dr_nd.cc     | 26 +++++++++++++-------------
 3 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/dr/constructors.cc b/dr/constructors.cc
index c8e845a..d2295e1 100644
--- a/dr/constructors.cc
+++ b/dr/constructors.cc
@@ -96,7 +96,7 @@ de_Rham_local::de_Rham_local(const char* filename)
 {
     int64_t i, j;
     ifstream file;
-    Vec<zz_p> fbar_vector;
+    Vec<ZZ_p> f_vector;
     pair< Vec<int64_t>, Mat<ZZ_p> > *solve_pair;
     file.open(filename);
 
@@ -111,7 +111,7 @@ de_Rham_local::de_Rham_local(const char* filename)
         file >> n;
         file >> d;
         file >> Hilbert_J;
-        file >> fbar_vector;
+        file >> f_vector;
 
         tuple_list.SetLength( (n + 1) * d + 1);
         tuple_dict.SetLength( (n + 1) * d + 1);
@@ -123,13 +123,13 @@ de_Rham_local::de_Rham_local(const char* filename)
                 tuple_dict[i][ ((tuple_list[i])[j]) ] = j;
             }
         }
-        assert( tuple_list[d].length() == fbar_vector.length() );
-        for(i = 0 ; i < (int64_t) fbar_vector.length() ; i++)
+        assert( tuple_list[d].length() == f_vector.length() );
+        for(i = 0 ; i < (int64_t) f_vector.length() ; i++)
         {
-            if( ! IsZero(fbar_vector[i]) )
+            if( ! IsZero(f_vector[i]) )
             {
-                f[ tuple_list[d][i] ] = rep( fbar_vector[i] );
-                fbar[ tuple_list[d][i] ] = fbar_vector[i];
+                f[ tuple_list[d][i] ] = f_vector[i];
+                fbar[ tuple_list[d][i] ] = rep( f_vector[i] ) % p;
             }
         }
 
diff --git a/dr/save.cc b/dr/save.cc
index 77cc463..c42b92c 100644
--- a/dr/save.cc
+++ b/dr/save.cc
@@ -15,13 +15,13 @@ bool de_Rham_local::save(const char * filename)
 
     int64_t i;
     ofstream file;
-    Vec<zz_p> fbar_vector;
-    map< Vec<int64_t>, zz_p, vi64less>::const_iterator it;
+    Vec<ZZ_p> f_vector;
+    map< Vec<int64_t>, ZZ_p, vi64less>::const_iterator it;
     pair< Vec<int64_t> , Mat<ZZ_p> > *solve_pair;
 
-    fbar_vector.SetLength( tuple_list[d].length() );
-    for( it = fbar.begin(); it != fbar.end(); it++)
-        fbar_vector[ tuple_dict[d][it->first] ] = it->second;
+    f_vector.SetLength( tuple_list[d].length() );
+    for( it = f.begin(); it != f.end(); it++)
+        f_vector[ tuple_dict[d][it->first] ] = it->second;
 
     file.open(filename, ios::out | ios::trunc);
 
@@ -36,7 +36,7 @@ bool de_Rham_local::save(const char * filename)
         file << n <<endl;
         file << d <<endl;
         file << Hilbert_J <<endl;
-        file << fbar_vector << endl;
+        file << f_vector << endl;
 
         for( i = 0; i < n ; i++)
         {
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index 9a26ca6..ad1678a 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -105,7 +105,7 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
 {
     int64_t i, j;
     ifstream file;
-    Vec<zz_p> fbar_vector;
+    Vec<ZZ_p> f_vector;
     pair< Vec<int64_t>, Mat<ZZ_p> > *solve_pair;
     file.open(filename);
 
@@ -120,7 +120,7 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
         file >> n;
         file >> d;
         file >> Hilbert_J;
-        file >> fbar_vector;
+        file >> f_vector;
 
         tuple_list.SetLength( (n + 1) * d + 1);
         tuple_dict.SetLength( (n + 1) * d + 1);
@@ -132,13 +132,13 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
                 tuple_dict[i][ ((tuple_list[i])[j]) ] = j;
             }
         }
-        assert( tuple_list[d].length() == fbar_vector.length() );
-        for(i = 0 ; i < (int64_t) fbar_vector.length() ; i++)
+        assert( tuple_list[d].length() == f_vector.length() );
+        for(i = 0 ; i < (int64_t) f_vector.length() ; i++)
         {
-            if( ! IsZero(fbar_vector[i]) )
+            if( ! IsZero(f_vector[i]) )
             {
-                f[ tuple_list[d][i] ] = rep( fbar_vector[i] );
-                fbar[ tuple_list[d][i] ] = fbar_vector[i];
+                f[ tuple_list[d][i] ] = f_vector[i];
+                fbar[ tuple_list[d][i] ] = rep( f_vector[i] ) % p;
             }
         }
 
@@ -253,13 +253,13 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
 
     int64_t i;
     ofstream file;
-    Vec<zz_p> fbar_vector;
-    map< Vec<int64_t>, zz_p, vi64less>::const_iterator it;
+    Vec<ZZ_p> f_vector;
+    map< Vec<int64_t>, ZZ_p, vi64less>::const_iterator it;
     pair< Vec<int64_t> , Mat<ZZ_p> > *solve_pair;
 
-    fbar_vector.SetLength( tuple_list[d].length() );
-    for( it = fbar.begin(); it != fbar.end(); it++)
-        fbar_vector[ tuple_dict[d][it->first] ] = it->second;
+    f_vector.SetLength( tuple_list[d].length() );
+    for( it = f.begin(); it != f.end(); it++)
+        f_vector[ tuple_dict[d][it->first] ] = it->second;
 
     file.open(filename, ios::out | ios::trunc);
 
@@ -274,7 +274,7 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
         file << n <<endl;
         file << d <<endl;
         file << Hilbert_J <<endl;
-        file << fbar_vector << endl;
+        file << f_vector << endl;
 
         for( i = 0; i < n ; i++)
         {
-- 
2.43.0


From 009686608db2ec4b128b9fbd2fc37a93bc9b7ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:17 +0000
Subject: [PATCH 11/16] fix: frob_J_ZZ_p aborted for p <= n and basis elements
 of pole order above n/p

The last loop stopped at e = m - 1 without completing the factorial.
---
 hypersurface/frob_J_ZZ_p.cc | 46 +++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/hypersurface/frob_J_ZZ_p.cc b/hypersurface/frob_J_ZZ_p.cc
index 03ad9ee..6f61159 100644
--- a/hypersurface/frob_J_ZZ_p.cc
+++ b/hypersurface/frob_J_ZZ_p.cc
@@ -214,33 +214,35 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, c
     // H_last has the poles with order n
     // final reduction step for H_last
     mul(F, *(dR->get_final_reduction_matrix_J(n)), H_last);
-    for(e = n/p; e != 0 && e >= m; e-- )
+    for(e = n/p; e != 0; e-- )
     {
-        if(verbose)
-            cout<<"e = "<<e<<endl<<"\tadding new terms\n";
+        if(e >= m)
+        {
+            if(verbose)
+                cout<<"e = "<<e<<endl<<"\tadding new terms\n";
 
-        dict_G0 = &dR->tuple_dict[ d * p * e - (n + 1) ];
-        clear(G0);
-        G0.SetLength( dict_G0->size() );
+            dict_G0 = &dR->tuple_dict[ d * p * e - (n + 1) ];
+            clear(G0);
+            G0.SetLength( dict_G0->size() );
 
-        j = e - m;
-        Djm = 0;
-        for( i = j ; i < N ; i++)
-        {
-            bin = binomial(m + i - 1, m - 1) * binomial(i,j);
-            if(j%2 == 0)
-                Djm += bin;
-            else
-                Djm -= bin;
-        }
+            j = e - m;
+            Djm = 0;
+            for( i = j ; i < N ; i++)
+            {
+                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                if(j%2 == 0)
+                    Djm += bin;
+                else
+                    Djm -= bin;
+            }
 
-        for( it = fpow[j].begin(); it != fpow[j].end(); it++)
-        {
-            monomial = p * ( it->first + ei + ones ) - ones;
-            G0[ (*dict_G0)[ monomial ] ] += fact * Djm * it->second;
+            for( it = fpow[j].begin(); it != fpow[j].end(); it++)
+            {
+                monomial = p * ( it->first + ei + ones ) - ones;
+                G0[ (*dict_G0)[ monomial ] ] += fact * Djm * it->second;
+            }
+            F += (*(dR->get_final_reduction_matrix_J(p * e))) * G0;
         }
-        F += (*(dR->get_final_reduction_matrix_J(p * e))) * G0;
-
         /*
          * before
          * fact = (p * (m + N - 1))!/(p * e)!
-- 
2.43.0


From c876eaf6ad699dfd2d2d9ddf134f234014290019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 12/16] fix: frob_ND_flint released the modulus inside its loop
 when run with threads

---
 hypersurface_nd/hypersurface_nd.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hypersurface_nd/hypersurface_nd.cc b/hypersurface_nd/hypersurface_nd.cc
index 48f192c..e7b382f 100644
--- a/hypersurface_nd/hypersurface_nd.cc
+++ b/hypersurface_nd/hypersurface_nd.cc
@@ -650,7 +650,6 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_flint(const int64_t coordinate, c
             flint_free(v_list);
             flint_free(poly_list);
             _fmpz_vec_clear(G_list,Hlen*dpowern);
-            fmpz_clear(modulus);
             // reduced all terms from p*e to p*(e-1) and if e = 1 to basis
             H.swap(Hnew);
         }
-- 
2.43.0


From aedb4cf9635fa34323e8012248ce33606c2a0d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 13/16] fix: the precisions for plane cubics over F_2 do not
 determine the zeta function, so every such input aborted

---
 tools/default_args.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/default_args.cc b/tools/default_args.cc
index e1eb6be..f15c78c 100644
--- a/tools/default_args.cc
+++ b/tools/default_args.cc
@@ -15,8 +15,8 @@ void default_args(int64_t &precision, NTL::Vec<int64_t> &N, NTL::Vec<int64_t> &c
     std::stringstream buffer;
     if ( n == 2 && d == 3 ) {
 		if ( p < 5) {
-			precision = 5;
-			buffer << "[2 3]\n[2 2 2]";
+			precision = 9;
+			buffer << "[4 4]\n[3 3 3]";
 		} else if ( 5 <= p && p < 17 ) {
 			precision = 3;
 			buffer << "[2 2]\n[2 2 2]";
-- 
2.43.0


From 1b1ba2e4b2d96c1fca656c53ad1eb83d57b93473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:03 +0000
Subject: [PATCH 14/16] fix: the coefficients of the Frobenius formula
 overflowed one word for many terms (wrong columns or abort)

---
 hypersurface/frob_J_ZZ.cc          |  4 ++--
 hypersurface/frob_J_ZZ_p.cc        | 12 ++++++------
 hypersurface_nd/hypersurface_nd.cc | 12 ++++++------
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/hypersurface/frob_J_ZZ.cc b/hypersurface/frob_J_ZZ.cc
index c018ed1..5f73ff3 100644
--- a/hypersurface/frob_J_ZZ.cc
+++ b/hypersurface/frob_J_ZZ.cc
@@ -75,7 +75,7 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ( const int64_t coordinate, const int64_t N,con
             // Djm = sum( [ binomial(m + i -1, m -1) * binomial(i , j) * (-1) ** j for i in range(j,N) ] )
             for( i = j ; i < N ; i++)
             {
-                bin = binomial_ZZ(m + i - 1, m - 1) * binomial(i,j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i,j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
@@ -252,7 +252,7 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ( const int64_t coordinate, const int64_t N,con
             Djm = 0;
             for( i = j ; i < N ; i++)
             {
-                bin = binomial(m + i - 1, m - 1) * binomial(i, j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i, j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
diff --git a/hypersurface/frob_J_ZZ_p.cc b/hypersurface/frob_J_ZZ_p.cc
index 6f61159..9d35b40 100644
--- a/hypersurface/frob_J_ZZ_p.cc
+++ b/hypersurface/frob_J_ZZ_p.cc
@@ -11,11 +11,11 @@
 Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, const int64_t loop)
 {
     assert(N > 0);
-    int64_t bin, e, i, j, m, sum, end, val;
+    int64_t e, i, j, m, sum, end, val;
     ZZ_p fact;
     //ZZ factZZ;
     ZZ tmp, remainder;
-    int64_t Djm;
+    ZZ bin, Djm;
     Vec<int64_t> ei, monomial, ones, src, dest, v, y;
     Vec<ZZ_p> F, G, G0, H_last, *H_temp;
     Mat<ZZ_p> Mred;
@@ -65,7 +65,7 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, c
             // Djm = sum( [ binomial(m + i -1, m -1) * binomial(i , j) * (-1) ** j for i in range(j,N) ] )
             for( i = j ; i < N ; i++)
             {
-                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i,j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
@@ -76,7 +76,7 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, c
                 monomial = it->first + ei + ones;
                 H_temp = &H[monomial];
                 H_temp->SetLength( dict_V->size() );
-                (*H_temp)[ (*dict_V)[ p * monomial - tweak( p * monomial, d * n - n) ] ] += Djm * it->second * fact;
+                (*H_temp)[ (*dict_V)[ p * monomial - tweak( p * monomial, d * n - n) ] ] += conv<ZZ_p>(Djm) * it->second * fact;
                 /*
                 if( H.find(monomial) == H.end() )
                 {
@@ -229,7 +229,7 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, c
             Djm = 0;
             for( i = j ; i < N ; i++)
             {
-                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i,j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
@@ -239,7 +239,7 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, c
             for( it = fpow[j].begin(); it != fpow[j].end(); it++)
             {
                 monomial = p * ( it->first + ei + ones ) - ones;
-                G0[ (*dict_G0)[ monomial ] ] += fact * Djm * it->second;
+                G0[ (*dict_G0)[ monomial ] ] += fact * conv<ZZ_p>(Djm) * it->second;
             }
             F += (*(dR->get_final_reduction_matrix_J(p * e))) * G0;
         }
diff --git a/hypersurface_nd/hypersurface_nd.cc b/hypersurface_nd/hypersurface_nd.cc
index e7b382f..d0a1ba0 100644
--- a/hypersurface_nd/hypersurface_nd.cc
+++ b/hypersurface_nd/hypersurface_nd.cc
@@ -125,7 +125,7 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_ZZ(const int64_t coordinate, cons
             // Djm = sum( [ binomial(m + i -1, m -1) * binomial(i , j) * (-1) ** j for i in range(j,N) ] )
             for( i = j ; i < N ; i++)
             {
-                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i,j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
@@ -271,11 +271,11 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_ZZ(const int64_t coordinate, cons
 Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_ZZ_p(const int64_t coordinate, const int64_t N, const int64_t loop)
 {
     assert(N > 0);
-    int64_t bin, e, i, j, m, sum, end, val, dpowern;
+    int64_t e, i, j, m, sum, end, val, dpowern;
     ZZ_p fact;
     //ZZ factZZ;
     ZZ tmp, remainder;
-    int64_t Djm;
+    ZZ bin, Djm;
     Vec<int64_t> ei, monomial, ones, src, dest, v, final_dest;
     Vec<ZZ_p> F, G, G0, H_last, *H_temp;
     Mat<ZZ_p> Mred;
@@ -322,7 +322,7 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_ZZ_p(const int64_t coordinate, co
             // Djm = sum( [ binomial(m + i -1, m -1) * binomial(i , j) * (-1) ** j for i in range(j,N) ] )
             for( i = j ; i < N ; i++)
             {
-                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i,j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
@@ -333,7 +333,7 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_ZZ_p(const int64_t coordinate, co
                 monomial = it->first + ei + ones;
                 H_temp = &H[monomial];
                 H_temp->SetLength( dpowern );
-                (*H_temp)[0] += Djm * it->second * fact;
+                (*H_temp)[0] += conv<ZZ_p>(Djm) * it->second * fact;
             }
         }
         /*
@@ -514,7 +514,7 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_flint(const int64_t coordinate, c
             // Djm = sum( [ binomial(m + i -1, m -1) * binomial(i , j) * (-1) ** j for i in range(j,N) ] )
             for( i = j ; i < N ; i++)
             {
-                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i,j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
-- 
2.43.0


From 4a5caf53fcfd12aaba59be5e8700e431083ce081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:03 +0000
Subject: [PATCH 15/16] fix: conv from nmod_mat_t to residues was wrong for
 entries of 64 bits

---
 conv.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/conv.h b/conv.h
index c2bf60e..5dc4e2a 100644
--- a/conv.h
+++ b/conv.h
@@ -83,7 +83,11 @@ void conv(NTL::Mat<T> &A, const nmod_mat_t B) {
     int64_t rowsA = nmod_mat_nrows(B);
     int64_t colsA = nmod_mat_ncols(B);
     A.SetDims(rowsA, colsA);
-    for(int64_t i = 0; i < rowsA; ++i)
-        for(int64_t j = 0; j < colsA; j++)
-            conv(A[i][j], nmod_mat_entry(B, i, j));
+    NTL::ZZ tmp;
+    for(int64_t i = 0; i < rowsA; ++i) {
+        for(int64_t j = 0; j < colsA; j++) {
+            conv(tmp, nmod_mat_entry(B, i, j));
+            conv(A[i][j], tmp);
+        }
+    }
 }
-- 
2.43.0


From 3dc23bbb3178c629f15b1234ffffce6a8ea78027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 16/16] fix: zeta_function read the first monomial of the empty
 polynomial

---
 wrapper/zeta_function.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wrapper/zeta_function.cc b/wrapper/zeta_function.cc
index 3334fd7..6d49800 100644
--- a/wrapper/zeta_function.cc
+++ b/wrapper/zeta_function.cc
@@ -42,6 +42,7 @@ void zeta_function(
     #else
     assert(threads > 0);
     #endif
+    assert( !f.empty() );
     Vec<int64_t> monomial = f.cbegin()->first;
     int64_t n = monomial.length() - 1;
     int64_t d = 0;
-- 
2.43.0

