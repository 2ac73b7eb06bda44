From f491a81d7a1d9038f03f000225af062b607d6a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 01/48] fix: a copied Set refers to its own site tables

The copied subsets pointed at the site tables (and the Set) they were copied
from, and dangled when that Set was remade or destroyed.
---
 include/qdp_subset.h | 3 +++
 lib/qdp_subset.cc    | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/qdp_subset.h b/include/qdp_subset.h
index 38aa4e9..11b29a6 100644
--- a/include/qdp_subset.h
+++ b/include/qdp_subset.h
@@ -101,6 +101,9 @@ public:
   //! Constructor from a function object
   Set(const SetFunc& fn) {make(fn);}
 
+  //! Copy constructor
+  Set(const Set& s) {*this = s;}
+
   //! Constructor from a function object
   void make(const SetFunc& fn);
 
diff --git a/lib/qdp_subset.cc b/lib/qdp_subset.cc
index 68913b7..82ed961 100644
--- a/lib/qdp_subset.cc
+++ b/lib/qdp_subset.cc
@@ -159,9 +159,18 @@ namespace QDP
   // = operator
   Set& Set::operator=(const Set& s)
   {
+    if (this == &s)
+      return *this;
+
     sub = s.sub;
     lat_color = s.lat_color;
     sitetables = s.sitetables;
+
+    // The subsets must refer to the site tables of this set, not to those of s
+    for(int i=0; i < sub.size(); ++i)
+      sub[i].make(s.sub[i].ordRep, s.sub[i].startSite, s.sub[i].endSite,
+		  &(sitetables[i]), s.sub[i].sub_index, this);
+
     return *this;
   }
 
-- 
2.43.0


From 36224bf9dd85b65326310637eabc42ab51c63b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 02/48] fix: where() with one complex and one real branch,
 localInnerProductReal(matrix, scalar) compile

---
 include/qdp_primmatrix.h | 2 +-
 include/qdp_reality.h    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/qdp_primmatrix.h b/include/qdp_primmatrix.h
index 466f590..f5c50f2 100644
--- a/include/qdp_primmatrix.h
+++ b/include/qdp_primmatrix.h
@@ -1741,7 +1741,7 @@ localInnerProductReal(const PMatrix<T1,N,C>& s1, const PScalar<T2>& s2)
 
   d.elem() = localInnerProductReal(s1.elem(0,0), s2.elem());
   for(int k=1; k < N; ++k)
-    d.elem() += localInnerProductReal(s1.elem(k,0), s2.elem(k,k));
+    d.elem() += localInnerProductReal(s1.elem(k,k), s2.elem());
 
   return d;
 }
diff --git a/include/qdp_reality.h b/include/qdp_reality.h
index 18da0a1..3c1c9f4 100644
--- a/include/qdp_reality.h
+++ b/include/qdp_reality.h
@@ -2481,14 +2481,14 @@ struct TrinaryReturn<RScalar<T1>, RComplex<T2>, RScalar<T3>, FnWhere> {
 };
 
 template<class T1, class T2, class T3>
-inline typename TrinaryReturn<RScalar<T1>, RComplex<T2>, RComplex<T3>, FnWhere>::Type_t
+inline typename TrinaryReturn<RScalar<T1>, RComplex<T2>, RScalar<T3>, FnWhere>::Type_t
 where(const RScalar<T1>& a, const RComplex<T2>& b, const RScalar<T3>& c)
 {
   typedef typename TrinaryReturn<RScalar<T1>, RComplex<T2>, RScalar<T3>, FnWhere>::Type_t  Ret_t;
   typedef typename InternalScalar<T3>::Type_t  S;
 
   // Not optimal - want to have where outside assignment
-  return Ret_t(where(a.elem(), b.real(), c.real()),
+  return Ret_t(where(a.elem(), b.real(), c.elem()),
 	       where(a.elem(), b.imag(), S(0)));
 }
 
@@ -2510,7 +2510,7 @@ where(const RScalar<T1>& a, const RScalar<T2>& b, const RComplex<T3>& c)
   typedef typename InternalScalar<T2>::Type_t  S;
 
   // Not optimal - want to have where outside assignment
-  return Ret_t(where(a.elem(), b.real(), c.real()),
+  return Ret_t(where(a.elem(), b.elem(), c.real()),
 	       where(a.elem(), S(0), c.imag()));
 }
 
-- 
2.43.0


From de3bbabecb32919fb510c6b3221d5ed240ded6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:04 +0000
Subject: [PATCH 03/48] fix: generic HalfFermion = ColorMatrix * HalfFermion
 when the operand is the destination

The macro that multiplies reads its source after it has begun to write its
destination, so h = u*h gave a wrong result.
---
 .../qdp_scalarsite_generic_linalg_wrapper.h        | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h b/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h
index c1da599..fa34a73 100644
--- a/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h
+++ b/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h
@@ -44,11 +44,14 @@ void ordered_linalg_evaluate_userfunc(int lo, int hi, int myId, ordered_linalg_u
    // Ordered Way - loop through sites and save a table lookup
    for(int i=low; i < high; i++) { 
       
+     // The macro reads its source after it has begun to write its destination,
+     // and r can be d
+     const PSpinVector<PColorVector<RComplexFloat, 3>, 2> v = r.elem(i);
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
-				      r.elem(i).elem(0),
+				      v.elem(0),
 				      d.elem(i).elem(0));
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
-				      r.elem(i).elem(1),
+				      v.elem(1),
 				      d.elem(i).elem(1));
    }
   
@@ -87,11 +90,14 @@ void unordered_linalg_evaluate_userfunc(int lo, int hi, int myId,  unordered_lin
    for(int j=lo; j < hi; j++) { 
      int i = tab[j];
       
+     // The macro reads its source after it has begun to write its destination,
+     // and r can be d
+     const PSpinVector<PColorVector<RComplexFloat, 3>, 2> v = r.elem(i);
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
-				      r.elem(i).elem(0),
+				      v.elem(0),
 				      d.elem(i).elem(0));
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
-				      r.elem(i).elem(1),
+				      v.elem(1),
 				      d.elem(i).elem(1));
    } 
 }
-- 
2.43.0


From ba83b612274fcfc5b47bbba20654387899673037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:04 +0000
Subject: [PATCH 04/48] fix: SSE double ColorMatrix products when an operand is
 the destination

The kernels write the destination before they have read all of the operands.
---
 .../qdp_scalarsite_linalg_double.cc           | 56 +++++++++++++++++--
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc b/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc
index 193f035..098bfbc 100644
--- a/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc
+++ b/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc
@@ -20,7 +20,53 @@ namespace QDP {
 // Specialization to optimize the case   
 //    LatticeColorMatrix[ Subset] = LatticeColorMatrix * LatticeColorMatrix
 
-// Threading hoist
+  // The matrix product kernels begin to write dm before they have read all of
+  // lm and rm. When the destination is one of the operands, multiply copies of
+  // the operands, one site at a time.
+  inline
+  void ssed_3mat_copy(REAL64* dest, const REAL64* src)
+  {
+    for(int k=0; k < 18; k++)
+      dest[k] = src[k];
+  }
+
+  inline 
+  void ssed_3mat_sites(void (*func)(REAL64*, REAL64*, REAL64*, int),
+		       REAL64* dm, REAL64* lm, REAL64* rm, int n_3mat)
+  {
+    if (dm != lm && dm != rm) {
+      func(dm,lm,rm, n_3mat);
+      return;
+    }
+
+    REAL64 ltmp[18] QDP_ALIGN16;
+    REAL64 rtmp[18] QDP_ALIGN16;
+    for(int i=0; i < n_3mat; i++) {
+      ssed_3mat_copy(ltmp, &(lm[18*i]));
+      ssed_3mat_copy(rtmp, &(rm[18*i]));
+      func(&(dm[18*i]),ltmp,rtmp, 1);
+    }
+  }
+
+  inline 
+  void ssed_3mat_const_sites(void (*func)(REAL64*, REAL64*, REAL64*, REAL64*, int),
+			     REAL64* dm, REAL64* c, REAL64* lm, REAL64* rm, int n_3mat)
+  {
+    if (dm != lm && dm != rm) {
+      func(dm,c,lm,rm, n_3mat);
+      return;
+    }
+
+    REAL64 ltmp[18] QDP_ALIGN16;
+    REAL64 rtmp[18] QDP_ALIGN16;
+    for(int i=0; i < n_3mat; i++) {
+      ssed_3mat_copy(ltmp, &(lm[18*i]));
+      ssed_3mat_copy(rtmp, &(rm[18*i]));
+      func(&(dm[18*i]),c,ltmp,rtmp, 1);
+    }
+  }
+
+  // Threading hoist
   struct ordered_ssed_3mat_args {
     REAL64* lm;
     REAL64* rm;
@@ -40,7 +86,7 @@ namespace QDP {
     REAL64* rm = &(a->rm[index]);
     REAL64* dm = &(a->dm[index]);
 
-    func(dm,lm,rm, n_3mat);
+    ssed_3mat_sites(func,dm,lm,rm, n_3mat);
   }
 
   struct unordered_ssed_3mat_args { 
@@ -68,7 +114,7 @@ namespace QDP {
       REAL64 *lm = (REAL64 *)&(a->l.elem(i).elem().elem(0,0).real());
       REAL64 *rm = (REAL64 *)&(a->r.elem(i).elem().elem(0,0).real());
       REAL64 *dm = (REAL64 *)&(a->d.elem(i).elem().elem(0,0).real());
-      func(dm,lm, rm, 1);
+      ssed_3mat_sites(func,dm,lm,rm, 1);
     }
   }
       
@@ -279,7 +325,7 @@ void evaluate(OLattice< DCol >& d,
     REAL64* dm = &(a->dm[index]);
     REAL64* c  = a->c; // The const
 
-    func(dm,c,lm,rm, n_3mat);
+    ssed_3mat_const_sites(func,dm,c,lm,rm, n_3mat);
   }
 
   struct unordered_ssed_3mat_const_args { 
@@ -309,7 +355,7 @@ void evaluate(OLattice< DCol >& d,
       REAL64 *lm = (REAL64 *)&(a->l.elem(i).elem().elem(0,0).real());
       REAL64 *rm = (REAL64 *)&(a->r.elem(i).elem().elem(0,0).real());
       REAL64 *dm = (REAL64 *)&(a->d.elem(i).elem().elem(0,0).real());
-      func(dm,a->c, lm, rm, 1);
+      ssed_3mat_const_sites(func,dm,a->c,lm,rm, 1);
     }
   }
       
-- 
2.43.0


From efabe6bf727e1b958a6bbc2b12af82d3ff2c2bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 05/48] fix: isnormal of a matrix tested isinf of its elements

---
 include/qdp_primmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qdp_primmatrix.h b/include/qdp_primmatrix.h
index f5c50f2..9555da1 100644
--- a/include/qdp_primmatrix.h
+++ b/include/qdp_primmatrix.h
@@ -807,7 +807,7 @@ isnormal(const PMatrix<T1,N,C>& l)
 
   for(int i=0; i < N; ++i)
     for(int j=0; j < N; ++j)
-      d &= isinf(l.elem(i,j));
+      d &= isnormal(l.elem(i,j));
 
   return d;
 }
-- 
2.43.0


From 22c4b782af6c070311478fa29186bfd7c906e09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 06/48] fix: sumMulti, norm2 and inner products of arrays did
 not compile

sumMulti over an array declared a result of arrays of arrays, and the forms for
arrays of constants bound elements of a const array to non-const references.
---
 include/qdp_parscalar_specific.h    | 12 ++++++------
 include/qdp_parscalarvec_specific.h |  2 +-
 include/qdp_scalar_specific.h       | 14 +++++++-------
 include/qdp_scalarvec_specific.h    |  2 +-
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/qdp_parscalar_specific.h b/include/qdp_parscalar_specific.h
index 7e91f24..d0e0b12 100644
--- a/include/qdp_parscalar_specific.h
+++ b/include/qdp_parscalar_specific.h
@@ -919,7 +919,7 @@ template<class T>
 multi2d<typename UnaryReturn<OScalar<T>, FnSum>::Type_t>
 sumMulti(const multi1d< OScalar<T> >& s1, const Set& ss)
 {
-	multi2d<typename UnaryReturn<OScalar<T>, FnSumMulti>::Type_t> dest(s1.size(), ss.numSubsets());
+	multi2d<typename UnaryReturn<OScalar<T>, FnSum>::Type_t> dest(s1.size(), ss.numSubsets());
 
 #if defined(QDP_USE_PROFILING)	 
 	static QDPProfile_t prof(dest(0,0), OpAssign(), FnSum(), s1);
@@ -1017,7 +1017,7 @@ norm2(const multi1d< OScalar<T> >& s1)
 
 	for(int n=0; n < s1.size(); ++n)
 	{
-		OScalar<T>& ss1 = s1[n];
+		const OScalar<T>& ss1 = s1[n];
 		d.elem() += localNorm2(ss1.elem());
 	}
 
@@ -1143,8 +1143,8 @@ innerProduct(const multi1d< OScalar<T1> >& s1, const multi1d< OScalar<T2> >& s2)
 
 	for(int n=0; n < s1.size(); ++n)
 	{
-		OScalar<T1>& ss1 = s1[n];
-		OScalar<T2>& ss2 = s2[n];
+		const OScalar<T1>& ss1 = s1[n];
+		const OScalar<T2>& ss2 = s2[n];
 		d.elem() += localInnerProduct(ss1.elem(),ss2.elem());
 	}
 
@@ -1273,8 +1273,8 @@ innerProductReal(const multi1d< OScalar<T1> >& s1, const multi1d< OScalar<T2> >&
 
 	for(int n=0; n < s1.size(); ++n)
 	{
-		OScalar<T1>& ss1 = s1[n];
-		OScalar<T2>& ss2 = s2[n];
+		const OScalar<T1>& ss1 = s1[n];
+		const OScalar<T2>& ss2 = s2[n];
 		d.elem() += localInnerProductReal(ss1.elem(),ss2.elem());
 	}
 
diff --git a/include/qdp_parscalarvec_specific.h b/include/qdp_parscalarvec_specific.h
index 4fe3af7..3defaa4 100644
--- a/include/qdp_parscalarvec_specific.h
+++ b/include/qdp_parscalarvec_specific.h
@@ -694,7 +694,7 @@ norm2(const multi1d< OScalar<T> >& s1)
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T>& ss1 = s1[n];
+    const OScalar<T>& ss1 = s1[n];
     d.elem() += localNorm2(ss1.elem());
   }
 
diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index fe40026..98fe90f 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -838,7 +838,7 @@ sumMulti(const QDPExpr<RHS,OLattice<T> >& s1, const Set& ss)
  * slices
  */
 template<class T>
-multi2d<typename UnaryReturn<OScalar<T>, FnSumMulti>::Type_t>
+multi2d<typename UnaryReturn<OScalar<T>, FnSum>::Type_t>
 sumMulti(const multi1d< OScalar<T> >& s1, const Set& ss)
 {
   multi2d<typename UnaryReturn<OScalar<T>, FnSum>::Type_t>  dest(s1.size(),ss.numSubsets());
@@ -873,7 +873,7 @@ sumMulti(const multi1d< OScalar<T> >& s1, const Set& ss)
  * version is fine.
  */
 template<class T>
-multi2d<typename UnaryReturn<OLattice<T>, FnSumMulti>::Type_t>
+multi2d<typename UnaryReturn<OLattice<T>, FnSum>::Type_t>
 sumMulti(const multi1d< OLattice<T> >& s1, const Set& ss)
 {
   multi2d<typename UnaryReturn<OLattice<T>, FnSum>::Type_t>  dest(s1.size(),ss.numSubsets());
@@ -937,7 +937,7 @@ norm2(const multi1d< OScalar<T> >& s1)
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T>& ss1 = s1[n];
+    const OScalar<T>& ss1 = s1[n];
     d.elem() += localNorm2(ss1.elem());
   }
 
@@ -1059,8 +1059,8 @@ innerProduct(const multi1d< OScalar<T1> >& s1, const multi1d< OScalar<T2> >& s2)
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T1>& ss1 = s1[n];
-    OScalar<T2>& ss2 = s2[n];
+    const OScalar<T1>& ss1 = s1[n];
+    const OScalar<T2>& ss2 = s2[n];
     d.elem() += localInnerProduct(ss1.elem(),ss2.elem());
   }
 
@@ -1180,8 +1180,8 @@ innerProductReal(const multi1d< OScalar<T1> >& s1, const multi1d< OScalar<T2> >&
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T1>& ss1 = s1[n];
-    OScalar<T2>& ss2 = s2[n];
+    const OScalar<T1>& ss1 = s1[n];
+    const OScalar<T2>& ss2 = s2[n];
     d.elem() += localInnerProductReal(ss1.elem(),ss2.elem());
   }
 
diff --git a/include/qdp_scalarvec_specific.h b/include/qdp_scalarvec_specific.h
index 77a8119..72b6c23 100644
--- a/include/qdp_scalarvec_specific.h
+++ b/include/qdp_scalarvec_specific.h
@@ -627,7 +627,7 @@ norm2(const multi1d< OScalar<T> >& s1)
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T>& ss1 = s1[n];
+    const OScalar<T>& ss1 = s1[n];
     d.elem() += localNorm2(ss1.elem());
   }
 
-- 
2.43.0


From 2abec28677e7b7ba74895801a1e9ee47e4fa58a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:57 +0000
Subject: [PATCH 07/48] fix: RANNYU keeps the low 12 bits of its top word

It kept the high ones, so it was not the documented congruential generator and
returned values above 1.
---
 lib/qdp_rannyu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_rannyu.cc b/lib/qdp_rannyu.cc
index a7d294a..75a28ee 100644
--- a/lib/qdp_rannyu.cc
+++ b/lib/qdp_rannyu.cc
@@ -47,7 +47,7 @@ namespace QDP
 	ll[2] = ii[2] & 4095;
 	ii[1] = ii[1] + (ii[2] >> 12);
 	ll[1] = ii[1] & 4095;
-	ll[0] = (ii[0] + (ii[1] >> 12)) >> 12;
+	ll[0] = (ii[0] + (ii[1] >> 12)) & 4095;
 	ran = twom12*((double)ll[0] + twom12*((double)ll[1] + twom12*((double)ll[2] + twom12*((double)ll[3]))));
       }
     }
-- 
2.43.0


From 9efdc40105203ba7f4847e1fbb251d9ba0fb68b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:57 +0000
Subject: [PATCH 08/48] fix: RANNYU seed set or saved before the first draw

setrn was undone by the first draw, and savern returned an empty seed.
---
 lib/qdp_rannyu.cc | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lib/qdp_rannyu.cc b/lib/qdp_rannyu.cc
index 75a28ee..e15ff2e 100644
--- a/lib/qdp_rannyu.cc
+++ b/lib/qdp_rannyu.cc
@@ -34,6 +34,19 @@ namespace QDP
     // Hide the actual RNG
     namespace
     {
+      // Initialize the global seed if needed
+      void __init()
+      {
+	if (! inited)
+	{
+	  ran_seed.resize(4);
+	  for(int i=0; i < 4; ++i)
+	    ran_seed[i] = __default_seed[i];
+
+	  inited = true;
+	}
+      }
+
       void __rand(double& ran, multi1d<int>& ll)
       {
 	int ii[4];
@@ -58,16 +71,7 @@ namespace QDP
     {
       double ran;
 
-      // Initialize the global seed if needed
-      if (! inited)
-      {
-	ran_seed.resize(4);
-	for(int i=0; i < 4; ++i)
-	  ran_seed[i] = __default_seed[i];
-
-	inited = true;
-      }
-
+      __init();
       __rand(ran, ran_seed);
       return ran;
     }
@@ -83,12 +87,14 @@ namespace QDP
       }
 	
       ran_seed = iseed;
+      inited = true;
     }
 
 
     //! Recover the seed
     multi1d<int> savern()
     {
+      __init();
       return ran_seed;
     }
 
-- 
2.43.0


From 570782e28d26c577e002a6c55784f441309698a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:38 +0000
Subject: [PATCH 09/48] fix: random() on an empty subset stored an undefined
 seed

---
 include/qdp_parscalar_specific.h | 35 +++++++++++++++-----------------
 include/qdp_scalar_specific.h    | 29 +++++++++++++-------------
 2 files changed, 30 insertions(+), 34 deletions(-)

diff --git a/include/qdp_parscalar_specific.h b/include/qdp_parscalar_specific.h
index d0e0b12..4ea93ca 100644
--- a/include/qdp_parscalar_specific.h
+++ b/include/qdp_parscalar_specific.h
@@ -520,29 +520,26 @@ random(OLattice<T>& d, const Subset& s)
 	const int *tab = s.siteTable().slice();
 	const int nodeSites = s.numSiteTable();
 
-#pragma omp parallel
+	// The seed after the draw does not depend on the site (nor on there being one on this node)
+	Seed new_seed = RNG::ran_seed;
 	{
-		Seed seed;
-		Seed skewed_seed;
-
-#pragma omp for // need the barrier to avoid that RNG::ran_seed is changed too early!
-		for(int j=0; j < nodeSites; ++j)
-		{
-			int i = tab[j];
-			seed = RNG::ran_seed;
+		T tmp;
+		Seed skewed_seed = RNG::ran_seed;
+		fill_random(tmp, new_seed, skewed_seed, RNG::ran_mult_n);
+	}
 
-			skewed_seed.elem() = RNG::ran_seed.elem() * RNG::lattice_ran_mult->elem(i);
-			fill_random(d.elem(i), seed, skewed_seed, RNG::ran_mult_n);
-		}
+#pragma omp parallel for
+	for(int j=0; j < nodeSites; ++j)
+	{
+		int i = tab[j];
+		Seed seed = RNG::ran_seed;
+		Seed skewed_seed;
 
-		int myId = qdpThreadNum();
-		if( myId < nodeSites ) {
-#pragma omp critical (random)
-		{
-			RNG::ran_seed = seed;	 // The seed from any site is the same as the new global seed
-		}
-		}
+		skewed_seed.elem() = RNG::ran_seed.elem() * RNG::lattice_ran_mult->elem(i);
+		fill_random(d.elem(i), seed, skewed_seed, RNG::ran_mult_n);
 	}
+
+	RNG::ran_seed = new_seed;
 }
 
 
diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index 98fe90f..93acd4b 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -341,25 +341,24 @@ random(OLattice<T>& d, const Subset& s)
   // Grab table array
   const int *tab = s.siteTable().slice();
 
-#pragma omp parallel 
+  // The seed after the draw does not depend on the site (nor on there being one)
+  Seed new_seed = RNG::ran_seed;
   {
-    Seed seed;
-    Seed skewed_seed;
-
-#pragma omp for // need the barrier to avoid that RNG::ran_seed is changed too early
-    for(int j=0; j < s.numSiteTable(); ++j) {
-      int i = tab[j];
-      seed = RNG::ran_seed;
-      skewed_seed.elem() = RNG::ran_seed.elem() * RNG::lattice_ran_mult->elem(i);
-      fill_random(d.elem(i), seed, skewed_seed, RNG::ran_mult_n);
-    }
+    T tmp;
+    Seed skewed_seed = RNG::ran_seed;
+    fill_random(tmp, new_seed, skewed_seed, RNG::ran_mult_n);
+  }
 
-#pragma omp critical (random)
-    {
-      RNG::ran_seed = seed;  // The seed from any site is the same as the new global seed
-    }
+#pragma omp parallel for
+  for(int j=0; j < s.numSiteTable(); ++j) {
+    int i = tab[j];
+    Seed seed = RNG::ran_seed;
+    Seed skewed_seed;
+    skewed_seed.elem() = RNG::ran_seed.elem() * RNG::lattice_ran_mult->elem(i);
+    fill_random(d.elem(i), seed, skewed_seed, RNG::ran_mult_n);
   }
 
+  RNG::ran_seed = new_seed;
 }
 
 
-- 
2.43.0


From 162dc8e9c82c31faafccf528c5413f8270c9d286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 10/48] fix: binary writers byte-swapped the caller's const
 data in place

---
 lib/qdp_io.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 7b434db..9d5c457 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -1170,11 +1170,14 @@ namespace QDP
       else
       {
 	/* little-endian */
-	/* Swap and write and swap */
-	QDPUtil::byte_swap(const_cast<char *>(output), size, nmemb);
-	internalChecksum() = QDPUtil::crc32(internalChecksum(), output, size*nmemb);
-	getOstream().write(output, size*nmemb);
-	QDPUtil::byte_swap(const_cast<char *>(output), size, nmemb);
+	/* Swap a copy and write: the caller's data may be read-only */
+	std::vector<char> swapped(output, output + size*nmemb);
+	if (! swapped.empty())
+	{
+	  QDPUtil::byte_swap(&swapped[0], size, nmemb);
+	  internalChecksum() = QDPUtil::crc32(internalChecksum(), &swapped[0], swapped.size());
+	  getOstream().write(&swapped[0], swapped.size());
+	}
       }
     }
   }
-- 
2.43.0


From f6424685f8132d0ed49d5e063fe4fadd63928243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 11/48] fix: binary buffers opened by their constructor had an
 undefined checksum

---
 lib/qdp_io.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 9d5c457..5c7470b 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -917,7 +917,7 @@ namespace QDP
   BinaryBufferReader::BinaryBufferReader() {checksum=0;}
 
   // Construct from a string
-  BinaryBufferReader::BinaryBufferReader(const std::string& s) {open(s);}
+  BinaryBufferReader::BinaryBufferReader(const std::string& s) {checksum=0; open(s);}
 
   BinaryBufferReader::~BinaryBufferReader() {}
 
@@ -1350,7 +1350,7 @@ namespace QDP
   BinaryBufferWriter::BinaryBufferWriter() {checksum=0;}
 
   // Construct from a string
-  BinaryBufferWriter::BinaryBufferWriter(const std::string& s) {open(s);}
+  BinaryBufferWriter::BinaryBufferWriter(const std::string& s) {checksum=0; open(s);}
 
   BinaryBufferWriter::~BinaryBufferWriter() {}
 
@@ -1543,7 +1543,7 @@ namespace QDP
   BinaryBufferReaderWriter::BinaryBufferReaderWriter() {checksum=0;}
 
   // Construct from a string
-  BinaryBufferReaderWriter::BinaryBufferReaderWriter(const std::string& s) {open(s);}
+  BinaryBufferReaderWriter::BinaryBufferReaderWriter(const std::string& s) {checksum=0; open(s);}
 
   BinaryBufferReaderWriter::~BinaryBufferReaderWriter() {}
 
-- 
2.43.0


From 986a7adb0f58afbd58e3fd56b90fe6c02c116502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 12/48] fix: operator<<(BinaryWriter&, char) was declared but
 not defined

---
 lib/qdp_io.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 5c7470b..8878821 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -1285,6 +1285,12 @@ namespace QDP
     return bin;
   }
 
+  BinaryWriter& operator<<(BinaryWriter& bin, char output)
+  {
+    write(bin, output);
+    return bin;
+  }
+
   BinaryWriter& operator<<(BinaryWriter& bin, int output)
   {
     write(bin, output);
-- 
2.43.0


From 272f393ec589c46d2351a90ab026b8f63c1619c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:37 +0000
Subject: [PATCH 13/48] fix: binary reads past the end handed back
 uninitialised data and lengths

---
 lib/qdp_io.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 8878821..6d4b18b 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -6,6 +6,7 @@
 #include "qdp.h"
 #include "qdp_byteorder.h"
 #include <complex>
+#include <cstring>
 
 namespace QDP
 {
@@ -614,14 +615,16 @@ namespace QDP
       // Get the length
       int n;
       readArrayPrimaryNode((char*)&n, sizeof(int), 1);
+      if (n < 0)
+      {
+	getIstream().setstate(std::ios_base::failbit);
+	n = 0;
+      }
     
       // Read
-      char* str = new char[n];
-      readArrayPrimaryNode(str, sizeof(char), n);
-
-      input.assign(str, n);
-
-      delete[] str;
+      input.resize(n);
+      if (n > 0)
+	readArrayPrimaryNode(&input[0], sizeof(char), n);
     }
 
     QDPInternal::broadcast(input);
@@ -719,6 +722,8 @@ namespace QDP
       // Read
       // By default, we expect all data to be in big-endian
       getIstream().read(input, size*nmemb);
+      if (getIstream().fail() && size*nmemb > 0)
+	memset(input, 0, size*nmemb);   // never hand back uninitialised data
       internalChecksum() = QDPUtil::crc32(internalChecksum(), input, size*nmemb);
 
       if (! QDPUtil::big_endian())
-- 
2.43.0


From 4e105584557323973676057ae630169b6dd6a9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:41 +0000
Subject: [PATCH 14/48] fix: multiNd(j,i), (k,j,i), (l,k,j,i) used the sizes of
 the wrong dimensions

---
 include/qdp_multi.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 0034bdd..8ac3a50 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -1127,7 +1127,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*j];
+      return F[i+nz[1]*j];
     }
 
   //! Return const ref to an element
@@ -1139,7 +1139,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*j];
+      return F[i+nz[1]*j];
     }
 
   //! Return ref to an element
@@ -1151,7 +1151,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k))];
+      return F[i+nz[2]*(j+nz[1]*(k))];
     }
 
   //! Return const ref to an element
@@ -1163,7 +1163,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k))];
+      return F[i+nz[2]*(j+nz[1]*(k))];
     }
 
   //! Return ref to an element
@@ -1175,7 +1175,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k+nz[2]*l))];
+      return F[i+nz[3]*(j+nz[2]*(k+nz[1]*l))];
     }
 
   //! Return const ref to an element
@@ -1187,7 +1187,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k+nz[2]*l))];
+      return F[i+nz[3]*(j+nz[2]*(k+nz[1]*l))];
     }
 
   //! Return ref to an element via indices packed in a multi1d array
-- 
2.43.0


From df5f7217d201b28020073b970c5a96aebc7964dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:41 +0000
Subject: [PATCH 15/48] fix: self-assignment of multi2d, 3d, 4d, 5d and multiNd
 lost the data

---
 include/qdp_multi.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 8ac3a50..4db1f2c 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -680,6 +680,9 @@ public:
   //! Equal operator uses underlying = of T
   multi2d<T>& operator=(const multi2d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size2(), s1.size1());   // always resize
 
       for(int i=0; i < sz; ++i)
@@ -779,6 +782,9 @@ public:
   //! Equal operator uses underlying = of T
   multi3d<T>& operator=(const multi3d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size3(), s1.size2(), s1.size1());
 
       for(int i=0; i < sz; ++i)
@@ -874,6 +880,9 @@ public:
   //! Equal operator uses underlying = of T
   multi4d<T>& operator=(const multi4d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size4(),s1.size3(),s1.size2(),s1.size1());
 
       for(int i=0; i < sz; ++i)
@@ -971,6 +980,9 @@ public:
   //! Equal operator uses underlying = of T
   multi5d<T>& operator=(const multi5d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size5(),s1.size4(),s1.size3(),s1.size2(),s1.size1());
 
       for(int i=0; i < sz; ++i)
@@ -1072,6 +1084,9 @@ public:
   //! Equal operator uses underlying = of T
   multiNd<T>& operator=(const multiNd<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size());
 
       for(int i=0; i < sz; ++i)
-- 
2.43.0


From 9036f8a542830a3678a6c16e35ee9ce36a8b8eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:41 +0000
Subject: [PATCH 16/48] fix: the sizing constructor of multi5d did not compile

---
 include/qdp_multi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 4db1f2c..f7afe3c 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -938,7 +938,7 @@ template<class T> class multi5d
 public:
   multi5d() {F=0;n1=n2=n3=n4=n5=sz=0;copymem=false;}
   multi5d(T *f, int ns5, int ns4, int ns3, int ns2, int ns1) {F=f; n1=ns1; n2=ns2; n3=ns3; n4=ns4; n5=ns5; sz=n1*n2*n3*n4*n5; copymem=true;}
-  explicit multi5d(int ns4, int ns3, int ns2, int ns1) {copymem=false;F=0;resize(ns4,ns3,ns2,ns1);}
+  explicit multi5d(int ns5, int ns4, int ns3, int ns2, int ns1) {copymem=false;F=0;resize(ns5,ns4,ns3,ns2,ns1);}
   ~multi5d() {if (! copymem) {delete[] F;}}
 
   //! Copy constructor
-- 
2.43.0


From e57adea6ed4b6613fa20fa0de951b37e268d7d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:41 +0000
Subject: [PATCH 17/48] fix: copying or reading a multiNd without dimensions
 read a size that is not there

---
 include/qdp_multi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index f7afe3c..a162c1b 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -1037,7 +1037,7 @@ private:
 template<class T> class multiNd
 {
 public:
-  multiNd() {F=0;}
+  multiNd() {F=0;sz=0;}
   explicit multiNd(const multi1d<int>& _nz) {F=0;resize(_nz);}
   ~multiNd() {delete[] F;}
 
@@ -1055,7 +1055,7 @@ public:
     {
       delete[] F; 
       nz = _nz;
-      sz = nz[0];
+      sz = (nz.size() > 0) ? nz[0] : 0;
       for(int i=1; i < nz.size(); ++i)
 	sz *= nz[i];
       F = new(std::nothrow) T[sz];
-- 
2.43.0


From 31f067a865d2c55cd4a92d2b526c013f9f6fa3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:47 +0000
Subject: [PATCH 18/48] fix: NERSC files of uncompressed links were labelled as
 compressed ones

---
 lib/qdp_iogauge.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_iogauge.cc b/lib/qdp_iogauge.cc
index 6706acf..5b57557 100644
--- a/lib/qdp_iogauge.cc
+++ b/lib/qdp_iogauge.cc
@@ -621,7 +621,7 @@ static void writeArchivHeader(BinaryWriter& cfg_out, const ArchivGauge_t& header
   head << "LINK_TRACE = " << header.link << "\n"
        << "PLAQUETTE = " << header.w_plaq << "\n";
 
-  head << "DATATYPE = 4D_SU3_GAUGE\n"
+  head << "DATATYPE = " << (header.mat_size == 18 ? "4D_SU3_GAUGE_3x3" : "4D_SU3_GAUGE") << "\n"
        << "HDR_VERSION = 1.0\n"
        << "STORAGE_FORMAT = 1.0\n";
 
-- 
2.43.0


From 97f70688f3696e29045e1f501526640f0d773825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:47 +0000
Subject: [PATCH 19/48] fix: reading a NERSC header lost antiperiodic boundary
 conditions

---
 lib/qdp_iogauge.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/qdp_iogauge.cc b/lib/qdp_iogauge.cc
index 5b57557..29c7bd9 100644
--- a/lib/qdp_iogauge.cc
+++ b/lib/qdp_iogauge.cc
@@ -409,7 +409,7 @@ static void readArchivHeader(BinaryReader& cfg_in, ArchivGauge_t& header)
     }
     
     // Find the boundary conditions
-    if ( sscanf(line.c_str(), "BOUNDARY_%d = %d", &dd, &itmp) == 2 ) 
+    if ( sscanf(token.c_str(), "BOUNDARY_%d", &dd) == 1 ) 
     {
       /* Found a lat size */
       if (dd < 1 || dd > Nd)
@@ -418,7 +418,12 @@ static void readArchivHeader(BinaryReader& cfg_in, ArchivGauge_t& header)
 	QDP_abort(1);
       }
       
-      header.boundary[dd-1] = itmp;
+      if ( value == std::string("PERIODIC") )
+	header.boundary[dd-1] = 1;
+      else if ( value == std::string("ANTIPERIODIC") )
+	header.boundary[dd-1] = -1;
+      else if ( sscanf(value.c_str(), "%d", &itmp) == 1 )
+	header.boundary[dd-1] = itmp;
     }
 
     if( token == std::string("FLOATING_POINT") )
-- 
2.43.0


From 1d87e1fd944fe8994e6033aa11e6bcfa9f7204b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:07 +0000
Subject: [PATCH 20/48] fix: the checksum in an XML NERSC header, written in
 hex, was read as decimal

---
 lib/qdp_iogauge.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_iogauge.cc b/lib/qdp_iogauge.cc
index 29c7bd9..24ec83b 100644
--- a/lib/qdp_iogauge.cc
+++ b/lib/qdp_iogauge.cc
@@ -156,7 +156,7 @@ void read(XMLReader& xml, const std::string& path, ArchivGauge_t& header)
     std::string chk;
     read(paramtop, "checksum", chk);
     std::istringstream s(chk);
-    s >> header.checksum;
+    s >> std::hex >> header.checksum;
   }
 }
 
-- 
2.43.0


From 8c603d794cf7ffe4e5410be7438996801bc6659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:31 +0000
Subject: [PATCH 21/48] fix: in the 3D checkerboarded layout files and
 lexicographic indices were in its memory order

---
 lib/qdp_layout.cc           | 14 ++++++++------
 lib/qdp_parscalar_layout.cc |  8 ++++++--
 lib/qdp_scalar_layout.cc    |  8 ++++++--
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/lib/qdp_layout.cc b/lib/qdp_layout.cc
index 711aa62..79837f9 100644
--- a/lib/qdp_layout.cc
+++ b/lib/qdp_layout.cc
@@ -68,7 +68,10 @@ namespace QDP {
 
 #if QDP_USE_CB3D_LAYOUT == 1
 
-	multi1d<int> crtesn(int ipos, const multi1d<int>& latt_size)
+	// The order of the sites in memory -- t fastest
+	// NOTE: only for the 3D checkerboarded layouts. The lexicographic order of
+	// sites, say in files, is the one of crtesn and local_site for any layout
+	multi1d<int> crtesnTimeFastest(int ipos, const multi1d<int>& latt_size)
 	{
 		multi1d<int> coord(latt_size.size());
 		int Ndim=latt_size.size() - 1; // Last elem latt size
@@ -94,12 +97,12 @@ namespace QDP {
 		return coord;
 	}
   
-	//! Calculates the lexicographic site index from the coordinate of a site
+	//! Calculates the site index in that order from the coordinate of a site
 	/*! 
 	* Nothing specific about the actual lattice size, can be used for 
 	* any kind of latt size 
 	*/
-	int local_site(const multi1d<int>& coord, const multi1d<int>& latt_size)
+	int localSiteTimeFastest(const multi1d<int>& coord, const multi1d<int>& latt_size)
 	{
 		int order = 0;
 
@@ -119,7 +122,8 @@ namespace QDP {
 	}
 
 
-#else
+#endif
+
 	// Usual lattice decomposition -- x fastest, t slowest
 	//! Decompose a lexicographic site into coordinates
 	multi1d<int> crtesn(int ipos, const multi1d<int>& latt_size)
@@ -162,8 +166,6 @@ namespace QDP {
 		return order;
 	}
 
-#endif
-
 
 
 } // namespace QDP;
diff --git a/lib/qdp_parscalar_layout.cc b/lib/qdp_parscalar_layout.cc
index 8f925a3..fc0f67b 100644
--- a/lib/qdp_parscalar_layout.cc
+++ b/lib/qdp_parscalar_layout.cc
@@ -547,6 +547,10 @@ QDPXX_MESSAGE("Using a 2 checkerboard (red/black) layout")
 
 QDPXX_MESSAGE("Using a 3D checkerboard (red/black) layout")
 
+  // The order of the sites on a node, in qdp_layout.cc
+  multi1d<int> crtesnTimeFastest(int ipos, const multi1d<int>& latt_size);
+  int localSiteTimeFastest(const multi1d<int>& coord, const multi1d<int>& latt_size);
+
   namespace Layout
   {
     //! The linearized site index for the corresponding coordinate
@@ -568,7 +572,7 @@ QDPXX_MESSAGE("Using a 3D checkerboard (red/black) layout")
       for(int i=1; i < Nd; ++i)
 	subgrid_cb_coord[i] = coord[i] % subgrid_cb_nrow[i];
     
-      return local_site(subgrid_cb_coord, subgrid_cb_nrow) + cb*subgrid_vol_cb;
+      return localSiteTimeFastest(subgrid_cb_coord, subgrid_cb_nrow) + cb*subgrid_vol_cb;
     }
 
 
@@ -606,7 +610,7 @@ QDPXX_MESSAGE("Using a 3D checkerboard (red/black) layout")
       coord *= Layout::subgridLattSize();
     
       int cb = linearsite / subgrid_vol_cb;
-      multi1d<int> tmp_coord = crtesn(linearsite % subgrid_vol_cb, subgrid_cb_nrow);
+      multi1d<int> tmp_coord = crtesnTimeFastest(linearsite % subgrid_vol_cb, subgrid_cb_nrow);
 
       
 
diff --git a/lib/qdp_scalar_layout.cc b/lib/qdp_scalar_layout.cc
index 61dc62a..cd93b9d 100644
--- a/lib/qdp_scalar_layout.cc
+++ b/lib/qdp_scalar_layout.cc
@@ -359,6 +359,10 @@ QDPXX_MESSAGE("Using a 2 checkerboard (red/black) layout")
 
 QDPXX_MESSAGE("Using a 2 checkerboard (red/black) layout but in 3D. Time running fastest")
 
+  // The order of the sites on a node, in qdp_layout.cc
+  multi1d<int> crtesnTimeFastest(int ipos, const multi1d<int>& latt_size);
+  int localSiteTimeFastest(const multi1d<int>& coord, const multi1d<int>& latt_size);
+
   namespace Layout
   {
 
@@ -380,7 +384,7 @@ QDPXX_MESSAGE("Using a 2 checkerboard (red/black) layout but in 3D. Time running
       int cb = linearsite / vol_cb;
 
       // This now uses crtesn with the t running fastest
-      multi1d<int> coord = crtesn(linearsite % vol_cb, cb_nrow);
+      multi1d<int> coord = crtesnTimeFastest(linearsite % vol_cb, cb_nrow);
 
       int cbb = cb;
       for(int m=1; m<coord.size()-1; ++m) // Nd-1 checkerboard
@@ -412,7 +416,7 @@ QDPXX_MESSAGE("Using a 2 checkerboard (red/black) layout but in 3D. Time running
       cb = cb & 1;
 
       // Use funky local site 
-      return local_site(cb_coord, cb_nrow) + cb*vol_cb;
+      return localSiteTimeFastest(cb_coord, cb_nrow) + cb*vol_cb;
     }
   }
 
-- 
2.43.0


From b6b10db8369bd44af095bcd495e88219bae94143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:02 +0000
Subject: [PATCH 22/48] fix: operator<<(TextWriter&, char) is declared but was
 not defined

---
 lib/qdp_io.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 6d4b18b..6d8d134 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -293,6 +293,12 @@ namespace QDP
     return txt;
   }
 
+  TextWriter& operator<<(TextWriter& txt, char output)
+  {
+    txt.write(output);
+    return txt;
+  }
+
   TextWriter& operator<<(TextWriter& txt, int output)
   {
     txt.write(output);
-- 
2.43.0


From 61318a611759d3f992ce48431d5b80374d772ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:02 +0000
Subject: [PATCH 23/48] fix: text output ran the numbers of a complex, vector
 or matrix together, so that they could not be read back

---
 include/qdp_primmatrix.h  | 2 +-
 include/qdp_primspinvec.h | 2 +-
 include/qdp_primvector.h  | 2 +-
 include/qdp_reality.h     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/qdp_primmatrix.h b/include/qdp_primmatrix.h
index 9555da1..e0844a5 100644
--- a/include/qdp_primmatrix.h
+++ b/include/qdp_primmatrix.h
@@ -182,7 +182,7 @@ TextWriter& operator<<(TextWriter& txt, const PMatrix<T,N,C>& d)
 {
   for(int j=0; j < N; ++j)
     for(int i=0; i < N; ++i)
-      txt << d.elem(i,j);
+      txt << d.elem(i,j) << "\n";
 
   return txt;
 }
diff --git a/include/qdp_primspinvec.h b/include/qdp_primspinvec.h
index fbf458c..687e53c 100644
--- a/include/qdp_primspinvec.h
+++ b/include/qdp_primspinvec.h
@@ -161,7 +161,7 @@ inline
 TextWriter& operator<<(TextWriter& txt, const PSpinVector<T,N>& d)
 {
   for(int i=0; i < N; ++i)
-    txt << d.elem(i);
+    txt << d.elem(i) << "\n";
 
   return txt;
 }
diff --git a/include/qdp_primvector.h b/include/qdp_primvector.h
index 4ba3251..daeefb6 100644
--- a/include/qdp_primvector.h
+++ b/include/qdp_primvector.h
@@ -193,7 +193,7 @@ inline
 TextWriter& operator<<(TextWriter& txt, const PVector<T,N,C>& d)
 {
   for(int i=0; i < N; ++i)
-    txt << d.elem(i);
+    txt << d.elem(i) << "\n";
 
   return txt;
 }
diff --git a/include/qdp_reality.h b/include/qdp_reality.h
index 3c1c9f4..e1980b7 100644
--- a/include/qdp_reality.h
+++ b/include/qdp_reality.h
@@ -420,7 +420,7 @@ template<class T>
 inline  
 TextWriter& operator<<(TextWriter& s, const RComplex<T>& d)
 {
-  return s << d.real() << d.imag();
+  return s << d.real() << " " << d.imag();
 }
 
 #ifdef QDP_USE_LIBXML2
-- 
2.43.0


From fac4e9662a45070014434a92ffea869208c66209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:10 +0000
Subject: [PATCH 24/48] fix: concat of arrays other than int, and scalar -
 array, did not compile

---
 include/qdp_multi.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index a162c1b..4b0e3c7 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -291,7 +291,7 @@ private:
 template<typename T>
 inline multi1d<T> concat(const multi1d<T>& l, const multi1d<T>& r)
 {
-  multi1d<int> nz(l.size() + r.size());
+  multi1d<T> nz(l.size() + r.size());
   int j = 0;
   for(int i=0; i < l.size(); ++i)
     nz[j++] = l[i];
@@ -440,8 +440,9 @@ template< typename T>
 inline
 multi1d<T> operator-(const T& s, const multi1d<T>& a)
 {
-  multi1d<T> c(-a); 
-  c+=s;
+  multi1d<T> c(a.size());
+  c = s;
+  c-= a;
   return c;
 }
 //! Array - scalar
-- 
2.43.0


From 5c94f5d255815189c514d378eeb867e7e141041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:10 +0000
Subject: [PATCH 25/48] fix: assigning to a slice of a 3d to 5d array, or to a
 2d to 5d view, aborted as a resize even for equal sizes

---
 include/qdp_multi.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 4b0e3c7..140b46a 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -684,7 +684,8 @@ public:
       if (this == &s1)
 	return *this;
 
-      resize(s1.size2(), s1.size1());   // always resize
+      if (n2 != s1.n2 || n1 != s1.n1)   // a slice can be assigned to but not resized
+	resize(s1.size2(), s1.size1());
 
       for(int i=0; i < sz; ++i)
 	F[i] = s1.F[i];
@@ -786,7 +787,8 @@ public:
       if (this == &s1)
 	return *this;
 
-      resize(s1.size3(), s1.size2(), s1.size1());
+      if (n3 != s1.n3 || n2 != s1.n2 || n1 != s1.n1)
+	resize(s1.size3(), s1.size2(), s1.size1());
 
       for(int i=0; i < sz; ++i)
 	F[i] = s1.F[i];
@@ -884,7 +886,8 @@ public:
       if (this == &s1)
 	return *this;
 
-      resize(s1.size4(),s1.size3(),s1.size2(),s1.size1());
+      if (n4 != s1.n4 || n3 != s1.n3 || n2 != s1.n2 || n1 != s1.n1)
+	resize(s1.size4(),s1.size3(),s1.size2(),s1.size1());
 
       for(int i=0; i < sz; ++i)
 	F[i] = s1.F[i];
@@ -984,7 +987,8 @@ public:
       if (this == &s1)
 	return *this;
 
-      resize(s1.size5(),s1.size4(),s1.size3(),s1.size2(),s1.size1());
+      if (n5 != s1.n5 || n4 != s1.n4 || n3 != s1.n3 || n2 != s1.n2 || n1 != s1.n1)
+	resize(s1.size5(),s1.size4(),s1.size3(),s1.size2(),s1.size1());
 
       for(int i=0; i < sz; ++i)
 	F[i] = s1.F[i];
-- 
2.43.0


From 9b64d9519d52d250c0f2b99dc1d6d4efbafc4398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:11 +0000
Subject: [PATCH 26/48] fix: creating a map file divided by 2^64 computed in 64
 bits, which is division by zero

---
 include/qdp_map_obj_disk.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 480da10..6bbe0a8 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -8,7 +8,7 @@
 #define __qdp_map_obj_disk_h__
 
 #include "qdp_map_obj.h"
-#include <limits>
+#include <array>
 #include <unordered_map>
 
 namespace QDP
@@ -210,9 +210,9 @@ namespace QDP
   typename MapObjectDisk<K,V>::priv_pos_type_t
   MapObjectDisk<K,V>::convertToPrivate(const pos_type& input) const
   {
-    const pos_type max_uint64 = pos_type(std::numeric_limits<uint64_t>::max()) + pos_type(1u);
-    uint64_t less = uint64_t(input % max_uint64);
-    uint64_t more = input / max_uint64;
+    // A stream position has at most 64 bits
+    uint64_t less = uint64_t(off_type(input));
+    uint64_t more = 0;
     // NOTE comment on priv_pos_type_t
     return (QDPUtil::big_endian() ? priv_pos_type_t{more, less} : priv_pos_type_t{less, more});
   }
@@ -222,12 +222,8 @@ namespace QDP
   typename MapObjectDisk<K,V>::pos_type 
   MapObjectDisk<K,V>::convertFromPrivate(const priv_pos_type_t& input) const
   {
-    const pos_type max_uint64 = pos_type(std::numeric_limits<uint64_t>::max()) + pos_type(1u);
-    // NOTE comment on priv_pos_type_t
-    if (!QDPUtil::big_endian())
-      return pos_type(input[0]) + pos_type(input[1]) * max_uint64;
-    else
-      return pos_type(input[1]) + pos_type(input[0]) * max_uint64;
+    // NOTE comment on priv_pos_type_t. The most significant half is always zero.
+    return pos_type(off_type(QDPUtil::big_endian() ? input[1] : input[0]));
   }
 
 
-- 
2.43.0


From d088230f6ecb7ef0952f5997b24a807334855f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:11 +0000
Subject: [PATCH 27/48] fix: inserting in a map file after a lookup or update
 overwrote the records behind it

---
 include/qdp_map_obj_disk.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 6bbe0a8..8972668 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -579,6 +579,9 @@ namespace QDP
       else {
 	// Key does not exist
 
+	// New records go to the end of the file, wherever a lookup left the position
+	streamer.seekEnd(0);
+
 	// Make note of current writer position
 	pos_type pos = streamer.currentPosition();
       
-- 
2.43.0


From f5c5f7ce775fee419f634f9f633108871eedd807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:11 +0000
Subject: [PATCH 28/48] fix: a closed map object kept its keys, and took them
 for those of the next file opened

---
 include/qdp_map_obj_disk.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 8972668..4be2e36 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -418,6 +418,7 @@ namespace QDP
       break;
     }
 
+    src_map.clear();
     state = INIT;
   }
   
-- 
2.43.0


From df9231d7c507fc77f2cbaf9239c060691ee84559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:11 +0000
Subject: [PATCH 29/48] fix: MapObjectDiskMultiple used its maps after close
 had deleted them, and found every file to exist before open

---
 include/qdp_map_obj_disk_multiple.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/qdp_map_obj_disk_multiple.h b/include/qdp_map_obj_disk_multiple.h
index 3dfe3aa..991408d 100644
--- a/include/qdp_map_obj_disk_multiple.h
+++ b/include/qdp_map_obj_disk_multiple.h
@@ -52,9 +52,9 @@ namespace QDP
     bool fileExists(const std::vector<std::string>& files) const
     {
       bool ret = true;
-      for(int i=0; i < dbs_.size(); ++i)
+      for(int i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i]->fileExists(files[i]);
+	ret = MapObjectDisk<K,V>().fileExists(files[i]);
 	if (! ret)
 	  return ret;
       }
@@ -71,6 +71,8 @@ namespace QDP
 	dbs_[i]->close();
 	delete dbs_[i];
       }
+
+      dbs_.clear();
     }
 
 
-- 
2.43.0


From 712521d80d20ff0c7f2a5ba3e054ba0d971230c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:32 +0000
Subject: [PATCH 30/48] fix: insert in a map file opened for reading reported
 success and made every later lookup fail

---
 include/qdp_map_obj_disk.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 4be2e36..93acfc3 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -37,7 +37,7 @@ namespace QDP
   {
   public:
     //! Empty constructor
-    MapObjectDisk() : file_version(1), state(INIT), level(0) {}
+    MapObjectDisk() : file_version(1), state(INIT), level(0), writable(false) {}
 
     //! Finalizes object
     ~MapObjectDisk();
@@ -144,6 +144,9 @@ namespace QDP
     //! Debugging
     int level;
 
+    //! Was the file opened for writing
+    bool writable;
+
     //! File related stuff. Unsigned int is as close to uint32 as I can get
     MapObjDiskEnv::file_version_t file_version;
     
@@ -240,6 +243,8 @@ namespace QDP
     {
       openRead(file, mode);
     }
+
+    writable = (mode & std::ios_base::out) != 0;
   }
 
 
@@ -544,6 +549,9 @@ namespace QDP
     switch (state)  { 
     case MODIFIED :
     case UNCHANGED : {
+      if (! writable)
+	return -1;
+
       //  Find key
       BinaryBufferWriter bin;
       write(bin, key);
@@ -622,6 +630,10 @@ namespace QDP
 	// Done
 	state = MODIFIED;
       }
+
+      if (streamer.fail())
+	ret = -1;
+
       break;
     }
     default:
-- 
2.43.0


From b6fd935cc47666b5deadd3f92bc242b896ab1d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 31/48] fix: a damaged record count in a map file made the
 reader loop billions of times past the end of the file

---
 include/qdp_map_obj_disk.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 93acfc3..14e77ee 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -900,7 +900,8 @@ namespace QDP
       QDPIO::cout << "Read num of entries: " << num_records << " records. Current Position: " << streamer.currentPosition() << std::endl;
     }
     
-    for(unsigned int i=0; i < num_records; i++) 
+    // A damaged count must not be followed past the end of the file
+    for(unsigned int i=0; i < num_records && ! streamer.fail(); i++) 
     { 
       priv_pos_type_t rpos;
       std::string key_str;
@@ -921,7 +922,7 @@ namespace QDP
     if (level >= 2) {
       QDPIO::cout << "Read Map checksum: " << read_checksum << "  Current Position: " << streamer.currentPosition();
     }
-    if( read_checksum != calc_checksum ) { 
+    if( streamer.fail() || read_checksum != calc_checksum ) { 
       QDPIO::cout << "Mismatched Checksums: Expected: " << calc_checksum << " but read " << read_checksum << std::endl;
       QDP_abort(1);
     }
-- 
2.43.0


From d82678a156a8a63cb590383c0c48a939fc1fd8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 32/48] fix: swapping the bytes of 2^32 elements or more never
 ended

---
 lib/qdp_byteorder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_byteorder.cc b/lib/qdp_byteorder.cc
index 672db34..47810ea 100644
--- a/lib/qdp_byteorder.cc
+++ b/lib/qdp_byteorder.cc
@@ -28,7 +28,7 @@ namespace QDPUtil
   //! Byte-swap an array of data each of size nmemb
   void byte_swap(void *ptr, size_t size, size_t nmemb)
   {
-    unsigned int j;
+    size_t j;
 
     char char_in[16];		/* characters used in byte swapping */
 
-- 
2.43.0


From 3c43cc973416dd1479708e1c2263f8a579b7b3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 33/48] fix: an exhausted pool handed out a pointer to no
 memory instead of reporting the failed allocation

---
 lib/qdp_pool_allocator.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/qdp_pool_allocator.cc b/lib/qdp_pool_allocator.cc
index d16fc05..9c7c8c2 100644
--- a/lib/qdp_pool_allocator.cc
+++ b/lib/qdp_pool_allocator.cc
@@ -72,6 +72,7 @@ namespace Allocator {
 
 
 	    unsigned char* Unaligned = (unsigned char *)(_LargePool->malloc(BytesToAlloc));
+	    if ( Unaligned == nullptr ) throw std::bad_alloc();  // pool exhausted
 
 	    unsigned char* Aligned = (unsigned char *)
 	    				( ( (unsigned long)Unaligned + (QDP_ALIGNMENT_SIZE-1) ) & ~(QDP_ALIGNMENT_SIZE - 1));
-- 
2.43.0


From 0a9c1727b42aaa6775774fac4a9058cdcc0d1f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 34/48] fix: the pool allocator accepted pointers it never
 handed out, or had taken back already, for freeing

---
 lib/qdp_pool_allocator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_pool_allocator.cc b/lib/qdp_pool_allocator.cc
index 9c7c8c2..3e54ef8 100644
--- a/lib/qdp_pool_allocator.cc
+++ b/lib/qdp_pool_allocator.cc
@@ -98,7 +98,7 @@ namespace Allocator {
 	{
 		try {
 			// Look it up.
-			auto d = theAllocMap[(unsigned char *)mem];
+			auto d = theAllocMap.at((unsigned char *)mem);
 #ifdef DEBUG_POOL_ALLOCATOR
 			QDPIO::cout << "PoolAlloc::free: Descriptor Found: Size="<< d.Size
 						<< "  Unaligned =" << std::hex <<(unsigned long)d.Unaligned << std::endl;
-- 
2.43.0


From db836ff5f7f8f7a57de63243b206ca5a4de1643e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 35/48] fix: QDP_abort or a second QDP_finalize after
 QDP_finalize freed the reduction buffers again

---
 lib/qdp_scalar_init.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/qdp_scalar_init.cc b/lib/qdp_scalar_init.cc
index ae96ea7..1c447f7 100644
--- a/lib/qdp_scalar_init.cc
+++ b/lib/qdp_scalar_init.cc
@@ -138,10 +138,12 @@ void QDP_finalize()
 
   if ( ThreadReductions::norm2_results != 0x0 ) { 
    delete [] ThreadReductions::norm2_results;
+   ThreadReductions::norm2_results = 0x0;
   }
 
   if ( ThreadReductions::innerProd_results != 0x0 ) { 
    delete [] ThreadReductions::innerProd_results;
+   ThreadReductions::innerProd_results = 0x0;
   }
 
    
-- 
2.43.0


From 054c8392a5f8009697095ec605ac78e098e4d6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 36/48] fix: an option that lacks its argument at the end of
 the command line crashed before it was diagnosed

---
 lib/qdp_scalar_init.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/qdp_scalar_init.cc b/lib/qdp_scalar_init.cc
index 1c447f7..2d87823 100644
--- a/lib/qdp_scalar_init.cc
+++ b/lib/qdp_scalar_init.cc
@@ -106,13 +106,14 @@ void QDP_initialize(int *argc, char ***argv)
     if (strcmp((*argv)[i], "-p")==0) 
     {
       int lev;
-      sscanf((*argv)[++i], "%d", &lev);
-      setProgramProfileLevel(lev);
+      if (++i < *argc && sscanf((*argv)[i], "%d", &lev) == 1)
+	setProgramProfileLevel(lev);
     }
 #endif
     if ( strcmp((*argv)[i],"-poolsize")==0)
       {
-	sscanf((*argv)[++i], "%f", &pool_size_in_gb);
+	if (++i < *argc)
+	  sscanf((*argv)[i], "%f", &pool_size_in_gb);
 	
       }
 
-- 
2.43.0


From 31f4e023910c2f594ecbf877b8faa5327b419eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 37/48] fix: assigning a constant to a field living on a subset
 set only its first site, and a scalar narrowed to a subset read an
 uninitialised flag

---
 include/qdp_globalfuncs_subtype.h | 11 ++++-
 include/qdp_outer.h               | 22 +++++++++-
 include/qdp_outersubtype.h        |  6 +--
 include/qdp_qdpsubtype.h          | 71 ++++++++++++++++---------------
 4 files changed, 69 insertions(+), 41 deletions(-)

diff --git a/include/qdp_globalfuncs_subtype.h b/include/qdp_globalfuncs_subtype.h
index c9b9fe2..3f57dc6 100644
--- a/include/qdp_globalfuncs_subtype.h
+++ b/include/qdp_globalfuncs_subtype.h
@@ -168,14 +168,21 @@ sum( const OSubLattice<T>& s1 )
 
   template<class T> 
   inline
-  void zero_rep_F( T* dest, const Subset& s)
+  void zero_rep_F( OSubLattice<T>& dest, const Subset& s)
   {
     for(int j=0; j < s.numSiteTable(); ++j) 
       {
-	zero_rep( dest[j] );
+	zero_rep( dest.getF()[j] );
       }
   }
 
+  template<class T> 
+  inline
+  void zero_rep_F( OSubScalar<T>& dest, const Subset& s)
+  {
+    zero_rep( *dest.getF() );
+  }
+
 
 #if 0
   //! dest  = 0 
diff --git a/include/qdp_outer.h b/include/qdp_outer.h
index 2bae99e..cfaab90 100644
--- a/include/qdp_outer.h
+++ b/include/qdp_outer.h
@@ -239,11 +239,29 @@ void evaluate(OScalar<T>& dest, const Op& op, const QDPExpr<RHS,OScalar<T1> >& r
 
 template<class T, class T1, class Op, class RHS>
 inline
-void evaluate_F(T* dest, const Op& op, const QDPExpr<RHS,OScalar<T1> >& rhs,
+void evaluate_F(OSubScalar<T>& dest, const Op& op, const QDPExpr<RHS,OScalar<T1> >& rhs,
 	      const Subset& s)
 {
   // Subset is not used at this level. It may be needed, though, within an inner operation
-  op(*dest, forEach(rhs, ElemLeaf(), OpCombine()));
+  op(*dest.getF(), forEach(rhs, ElemLeaf(), OpCombine()));
+}
+
+template<class T, class C, class Op, class RHS>
+inline
+void evaluate_F(OSubLattice<T>& dest, const Op& op, const QDPExpr<RHS,C>& rhs,
+	      const Subset& s)
+{
+  evaluate_F(dest.getF(), op, rhs, s);
+}
+
+template<class T, class T1, class Op, class RHS>
+inline
+void evaluate_F(T* dest, const Op& op, const QDPExpr<RHS,OScalar<T1> >& rhs,
+	      const Subset& s)
+{
+  // The same value for each site of the subset
+  for(int j=0; j < s.numSiteTable(); ++j)
+    op(dest[j], forEach(rhs, ElemLeaf(), OpCombine()));
 }
 
 
diff --git a/include/qdp_outersubtype.h b/include/qdp_outersubtype.h
index c3d5e6b..e2be511 100644
--- a/include/qdp_outersubtype.h
+++ b/include/qdp_outersubtype.h
@@ -22,8 +22,8 @@ class OSubScalar: public QDPSubType<T, OScalar<T> >
 
 public:
   //OSubScalar(OScalar<T>& a, const Subset& ss): F(a.getF()), s(ss) {}
-  OSubScalar(OScalar<T>& a, const Subset& ss): F(a.getF()), s(&(const_cast<Subset&>(ss))) {}
-  OSubScalar(const OSubScalar& a): F(a.F), s(a.s) {}
+  OSubScalar(OScalar<T>& a, const Subset& ss): F(a.getF()), ownsMemory(true), s(&(const_cast<Subset&>(ss))) {}
+  OSubScalar(const OSubScalar& a): F(a.F), ownsMemory(true), s(a.s) {}
   ~OSubScalar() {}
 
   //---------------------------------------------------------
@@ -78,7 +78,7 @@ public:
 
 private:
   T* F;
-  bool ownsMemory;
+  bool ownsMemory;  // always: statements act on F itself
   Subset* s;
 
   //const Subset& s;
diff --git a/include/qdp_qdpsubtype.h b/include/qdp_qdpsubtype.h
index b41b9a9..2bbc241 100644
--- a/include/qdp_qdpsubtype.h
+++ b/include/qdp_qdpsubtype.h
@@ -42,7 +42,7 @@ public:
   {
     typedef typename SimpleScalar<typename WordType<C>::Type_t>::Type_t  Scalar_t;
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpAssign(),PETE_identity(Scalar_t(rhs)),subset());
+      evaluate_F(me(),OpAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpAssign(),PETE_identity(Scalar_t(rhs)),subset());
@@ -53,7 +53,7 @@ public:
   void assign(const Zero&)
   {
     if (getOwnsMemory()) {
-      zero_rep_F(getF(),subset());
+      zero_rep_F(me(),subset());
     } else {
       C tmp(getF(),1.0);
       zero_rep(tmp,subset());
@@ -65,7 +65,7 @@ public:
   void assign(const QDPType<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpAssign(),PETE_identity(rhs),subset());
+      evaluate_F(me(),OpAssign(),PETE_identity(rhs),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpAssign(),PETE_identity(rhs),subset());
@@ -117,7 +117,7 @@ public:
   void assign(const QDPExpr<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpAssign(),rhs,subset());
+      evaluate_F(me(),OpAssign(),rhs,subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpAssign(),rhs,subset());
@@ -129,7 +129,7 @@ public:
   {
     typedef typename SimpleScalar<typename WordType<C>::Type_t>::Type_t  Scalar_t;
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpAddAssign(),PETE_identity(Scalar_t(rhs)),subset());
+      evaluate_F(me(),OpAddAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpAddAssign(),PETE_identity(Scalar_t(rhs)),subset());
@@ -141,7 +141,7 @@ public:
   void operator+=(const QDPType<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpAddAssign(),PETE_identity(rhs),subset());
+      evaluate_F(me(),OpAddAssign(),PETE_identity(rhs),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpAddAssign(),PETE_identity(rhs),subset());
@@ -153,7 +153,7 @@ public:
   void operator+=(const QDPExpr<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpAddAssign(),rhs,subset());
+      evaluate_F(me(),OpAddAssign(),rhs,subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpAddAssign(),rhs,subset());
@@ -165,7 +165,7 @@ public:
   {
     typedef typename SimpleScalar<typename WordType<C>::Type_t>::Type_t  Scalar_t;
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpSubtractAssign(),PETE_identity(Scalar_t(rhs)),subset());
+      evaluate_F(me(),OpSubtractAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpSubtractAssign(),PETE_identity(Scalar_t(rhs)),subset());
@@ -177,7 +177,7 @@ public:
   void operator-=(const QDPType<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpSubtractAssign(),PETE_identity(rhs),subset());
+      evaluate_F(me(),OpSubtractAssign(),PETE_identity(rhs),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpSubtractAssign(),PETE_identity(rhs),subset());
@@ -189,7 +189,7 @@ public:
   void operator-=(const QDPExpr<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpSubtractAssign(),rhs,subset());
+      evaluate_F(me(),OpSubtractAssign(),rhs,subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpSubtractAssign(),rhs,subset());
@@ -201,7 +201,7 @@ public:
   {
     typedef typename SimpleScalar<typename WordType<C>::Type_t>::Type_t  Scalar_t;
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpMultiplyAssign(),PETE_identity(Scalar_t(rhs)),subset());
+      evaluate_F(me(),OpMultiplyAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpMultiplyAssign(),PETE_identity(Scalar_t(rhs)),subset());
@@ -213,7 +213,7 @@ public:
   void operator*=(const QDPType<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpMultiplyAssign(),PETE_identity(rhs),subset());
+      evaluate_F(me(),OpMultiplyAssign(),PETE_identity(rhs),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpMultiplyAssign(),PETE_identity(rhs),subset());
@@ -225,7 +225,7 @@ public:
   void operator*=(const QDPExpr<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpMultiplyAssign(),rhs,subset());
+      evaluate_F(me(),OpMultiplyAssign(),rhs,subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpMultiplyAssign(),rhs,subset());
@@ -237,7 +237,7 @@ public:
   {
     typedef typename SimpleScalar<typename WordType<C>::Type_t>::Type_t  Scalar_t;
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpDivideAssign(),PETE_identity(Scalar_t(rhs)),subset());
+      evaluate_F(me(),OpDivideAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpDivideAssign(),PETE_identity(Scalar_t(rhs)),subset());
@@ -249,7 +249,7 @@ public:
   void operator/=(const QDPType<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpDivideAssign(),PETE_identity(rhs),subset());
+      evaluate_F(me(),OpDivideAssign(),PETE_identity(rhs),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpDivideAssign(),PETE_identity(rhs),subset());
@@ -261,7 +261,7 @@ public:
   void operator/=(const QDPExpr<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpDivideAssign(),rhs,subset());
+      evaluate_F(me(),OpDivideAssign(),rhs,subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpDivideAssign(),rhs,subset());
@@ -273,7 +273,7 @@ public:
   {
     typedef typename SimpleScalar<typename WordType<C>::Type_t>::Type_t  Scalar_t;
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpModAssign(),PETE_identity(Scalar_t(rhs)),subset());
+      evaluate_F(me(),OpModAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpModAssign(),PETE_identity(Scalar_t(rhs)),subset());
@@ -285,7 +285,7 @@ public:
   void operator%=(const QDPType<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpModAssign(),PETE_identity(rhs),subset());
+      evaluate_F(me(),OpModAssign(),PETE_identity(rhs),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpModAssign(),PETE_identity(rhs),subset());
@@ -297,7 +297,7 @@ public:
   void operator%=(const QDPExpr<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpModAssign(),rhs,subset());
+      evaluate_F(me(),OpModAssign(),rhs,subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpModAssign(),rhs,subset());
@@ -309,7 +309,7 @@ public:
   {
     typedef typename SimpleScalar<typename WordType<C>::Type_t>::Type_t  Scalar_t;
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpBitwiseOrAssign(),PETE_identity(Scalar_t(rhs)),subset());
+      evaluate_F(me(),OpBitwiseOrAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpBitwiseOrAssign(),PETE_identity(Scalar_t(rhs)),subset());
@@ -321,7 +321,7 @@ public:
   void operator|=(const QDPType<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpBitwiseOrAssign(),PETE_identity(rhs),subset());
+      evaluate_F(me(),OpBitwiseOrAssign(),PETE_identity(rhs),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpBitwiseOrAssign(),PETE_identity(rhs),subset());
@@ -333,7 +333,7 @@ public:
   void operator|=(const QDPExpr<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpBitwiseOrAssign(),PETE_identity(rhs),subset());
+      evaluate_F(me(),OpBitwiseOrAssign(),PETE_identity(rhs),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpBitwiseOrAssign(),PETE_identity(rhs),subset());
@@ -345,7 +345,7 @@ public:
   {
     typedef typename SimpleScalar<typename WordType<C>::Type_t>::Type_t  Scalar_t;
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpBitwiseAndAssign(),PETE_identity(Scalar_t(rhs)),subset());
+      evaluate_F(me(),OpBitwiseAndAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpBitwiseAndAssign(),PETE_identity(Scalar_t(rhs)),subset());
@@ -357,7 +357,7 @@ public:
   void operator&=(const QDPType<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpBitwiseAndAssign(),PETE_identity(rhs),subset());
+      evaluate_F(me(),OpBitwiseAndAssign(),PETE_identity(rhs),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpBitwiseAndAssign(),PETE_identity(rhs),subset());
@@ -369,7 +369,7 @@ public:
   void operator&=(const QDPExpr<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpBitwiseAndAssign(),rhs,subset());
+      evaluate_F(me(),OpBitwiseAndAssign(),rhs,subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpBitwiseAndAssign(),rhs,subset());
@@ -381,7 +381,7 @@ public:
   {
     typedef typename SimpleScalar<typename WordType<C>::Type_t>::Type_t  Scalar_t;
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpBitwiseXorAssign(),PETE_identity(Scalar_t(rhs)),subset());
+      evaluate_F(me(),OpBitwiseXorAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpBitwiseXorAssign(),PETE_identity(Scalar_t(rhs)),subset());
@@ -393,7 +393,7 @@ public:
   void operator^=(const QDPType<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpBitwiseXorAssign(),PETE_identity(rhs),subset());
+      evaluate_F(me(),OpBitwiseXorAssign(),PETE_identity(rhs),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpBitwiseXorAssign(),PETE_identity(rhs),subset());
@@ -405,7 +405,7 @@ public:
   void operator^=(const QDPExpr<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpBitwiseXorAssign(),rhs,subset());
+      evaluate_F(me(),OpBitwiseXorAssign(),rhs,subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpBitwiseXorAssign(),rhs,subset());
@@ -417,7 +417,7 @@ public:
   {
     typedef typename SimpleScalar<typename WordType<C>::Type_t>::Type_t  Scalar_t;
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpLeftShiftAssign(),PETE_identity(Scalar_t(rhs)),subset());
+      evaluate_F(me(),OpLeftShiftAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpLeftShiftAssign(),PETE_identity(Scalar_t(rhs)),subset());
@@ -429,7 +429,7 @@ public:
   void operator<<=(const QDPType<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpLeftShiftAssign(),PETE_identity(rhs),subset());
+      evaluate_F(me(),OpLeftShiftAssign(),PETE_identity(rhs),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpLeftShiftAssign(),PETE_identity(rhs),subset());
@@ -441,7 +441,7 @@ public:
   void operator<<=(const QDPExpr<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpLeftShiftAssign(),rhs,subset());
+      evaluate_F(me(),OpLeftShiftAssign(),rhs,subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpLeftShiftAssign(),rhs,subset());
@@ -454,7 +454,7 @@ public:
   {
     typedef typename SimpleScalar<typename WordType<C>::Type_t>::Type_t  Scalar_t;
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpRightShiftAssign(),PETE_identity(Scalar_t(rhs)),subset());
+      evaluate_F(me(),OpRightShiftAssign(),PETE_identity(Scalar_t(rhs)),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpRightShiftAssign(),PETE_identity(Scalar_t(rhs)),subset());
@@ -466,7 +466,7 @@ public:
   void operator>>=(const QDPType<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpRightShiftAssign(),PETE_identity(rhs),subset());
+      evaluate_F(me(),OpRightShiftAssign(),PETE_identity(rhs),subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpRightShiftAssign(),PETE_identity(rhs),subset());
@@ -478,7 +478,7 @@ public:
   void operator>>=(const QDPExpr<T1,C1>& rhs)
   {
     if (getOwnsMemory()) {
-      evaluate_F(getF(),OpRightShiftAssign(),rhs,subset());
+      evaluate_F(me(),OpRightShiftAssign(),rhs,subset());
     } else {
       C tmp(getF(),1.0);
       evaluate(tmp,OpRightShiftAssign(),rhs,subset());
@@ -490,6 +490,9 @@ private:
   inline
   C& operator=(const QDPSubType& rhs) {}
 
+private:
+  CC& me() {return static_cast<CC&>(*this);}
+
 public:
   //C& field() {return static_cast<CC*>(this)->field();}
   bool getOwnsMemory() { return static_cast<CC*>(this)->getOwnsMemory(); }
-- 
2.43.0


From 9d75d1f176a56856003d9c46cfff564bf58f910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 38/48] fix: sum over a subset view of a field added up the
 first sites of the field instead of those of the subset

---
 include/qdp_globalfuncs_subtype.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/qdp_globalfuncs_subtype.h b/include/qdp_globalfuncs_subtype.h
index 3f57dc6..c33653e 100644
--- a/include/qdp_globalfuncs_subtype.h
+++ b/include/qdp_globalfuncs_subtype.h
@@ -154,9 +154,11 @@ sum( const OSubLattice<T>& s1 )
   // Must initialize to zero since we do not know if the loop will be entered
   zero_rep(d.elem());
 
+  // An owning subtype stores one value per site of the subset, a view has all sites of its field
+  const int *tab = s1.subset().siteTable().slice();
   for(int j=0; j < s1.subset().numSiteTable(); ++j) 
     {
-      d.elem() += s1.getF()[j];
+      d.elem() += s1.getF()[s1.getOwnsMemory() ? j : tab[j]];
     }
 
   // Do a global sum on the result
-- 
2.43.0


From 86b80fe43ba139620fc8b1e40760398d137790a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 39/48] fix: pokeColor and pokeSpin on a field living on a
 subset wrote over memory beyond it

---
 include/qdp_newops.h | 104 +++++++++++++++++++++----------------------
 1 file changed, 50 insertions(+), 54 deletions(-)

diff --git a/include/qdp_newops.h b/include/qdp_newops.h
index b128af4..5ad646e 100644
--- a/include/qdp_newops.h
+++ b/include/qdp_newops.h
@@ -315,6 +315,48 @@ peekSpin(const QDPExpr<T1,C1> & l, int row)
 
 
 
+//! Insert components into a field living on a subset
+/*! The result holds the field on the sites of the subset, and zero elsewhere */
+template<class T,class Op,class RHS>
+inline OLattice<T>
+pokeSubTypeOwn(const OSubLattice<T>& l, const Op& op, const RHS& r)
+{
+  evaluate_F(l.getF(),op,r,l.subset());
+
+  OLattice<T> ll;
+  ll = zero;
+  ll = l;
+  return ll;
+}
+
+//! Insert components into a subset view of a field
+template<class T,class Op,class RHS>
+inline OLattice<T>
+pokeSubTypeView(const OSubLattice<T>& l, const Op& op, const RHS& r)
+{
+  OLattice<T> ll( l.getF() , 1.0 );
+  evaluate(ll,op,r,l.subset());
+  return ll;
+}
+
+//! Insert components through a subtype
+template<class T,class Op,class RHS>
+inline OLattice<T>
+pokeSubType(const OSubLattice<T>& l, const Op& op, const RHS& r)
+{
+  return l.getOwnsMemory() ? pokeSubTypeOwn(l,op,r) : pokeSubTypeView(l,op,r);
+}
+
+//! Insert components through a subtype
+template<class T,class Op,class RHS>
+inline OScalar<T>
+pokeSubType(const OSubScalar<T>& l, const Op& op, const RHS& r)
+{
+  op(*l.getF(), forEach(r, ElemLeaf(), OpCombine()));
+  return OScalar<T>( l.getF() , 1.0 );
+}
+
+
 //---------------------------------------
 //! Structure for inserting color matrix components
 struct FnPokeColorMatrix
@@ -369,12 +411,7 @@ template<class T1,class C1,class T2,class C2>
 inline C1
 pokeColor(const QDPSubType<T1,C1>& l, const QDPType<T2,C2>& r, int row, int col)
 {
-  //C1& ll = const_cast<QDPSubType<T1,C1>&>(l).field();
-  C1 ll( l.getF() , 1.0 );
-  const Subset& s = l.subset();
-
-  evaluate(ll,FnPokeColorMatrix(row,col),PETE_identity(r),s);
-  return ll;
+  return pokeSubType(static_cast<const typename QDPSubTypeTrait<C1>::Type_t&>(l),FnPokeColorMatrix(row,col),PETE_identity(r));
 }
 
 
@@ -382,12 +419,7 @@ template<class T1,class C1,class T2,class C2>
 inline C1
 pokeColor(const QDPSubType<T1,C1>& l, const QDPExpr<T2,C2>& r, int row, int col)
 {
-  //C1& ll = const_cast<QDPSubType<T1,C1>&>(l).field();
-  C1 ll( l.getF() , 1.0 );
-  const Subset& s = l.subset();
-
-  evaluate(ll,FnPokeColorMatrix(row,col),r,s);
-  return ll;
+  return pokeSubType(static_cast<const typename QDPSubTypeTrait<C1>::Type_t&>(l),FnPokeColorMatrix(row,col),r);
 }
 
 
@@ -443,13 +475,7 @@ template<class T1,class C1,class T2,class C2>
 inline C1
 pokeColor(const QDPSubType<T1,C1>& l, const QDPType<T2,C2>& r, int row)
 {
-  //C1& ll = const_cast<QDPSubType<T1,C1>&>(l).field();
-  C1 ll( l.getF() , 1.0 );
-
-  const Subset& s = l.subset();
-
-  evaluate(ll,FnPokeColorVector(row),PETE_identity(r),s);
-  return ll;
+  return pokeSubType(static_cast<const typename QDPSubTypeTrait<C1>::Type_t&>(l),FnPokeColorVector(row),PETE_identity(r));
 }
 
 
@@ -457,13 +483,7 @@ template<class T1,class C1,class T2,class C2>
 inline C1
 pokeColor(const QDPSubType<T1,C1>& l, const QDPExpr<T2,C2>& r, int row)
 {
-  //C1& ll = const_cast<QDPSubType<T1,C1>&>(l).field();
-  C1 ll( l.getF() , 1.0 );
-
-  const Subset& s = l.subset();
-
-  evaluate(ll,FnPokeColorVector(row),r,s);
-  return ll;
+  return pokeSubType(static_cast<const typename QDPSubTypeTrait<C1>::Type_t&>(l),FnPokeColorVector(row),r);
 }
 
 
@@ -518,13 +538,7 @@ template<class T1,class C1,class T2,class C2>
 inline C1
 pokeSpin(const QDPSubType<T1,C1>& l, const QDPType<T2,C2>& r, int row, int col)
 {
-  //C1& ll = const_cast<QDPSubType<T1,C1>&>(l).field();
-  C1 ll( l.getF() , 1.0 );
-
-  const Subset& s = l.subset();
-
-  evaluate(ll,FnPokeSpinMatrix(row,col),PETE_identity(r),s);
-  return ll;
+  return pokeSubType(static_cast<const typename QDPSubTypeTrait<C1>::Type_t&>(l),FnPokeSpinMatrix(row,col),PETE_identity(r));
 }
 
 
@@ -532,13 +546,7 @@ template<class T1,class C1,class T2,class C2>
 inline C1
 pokeSpin(const QDPSubType<T1,C1>& l, const QDPExpr<T2,C2>& r, int row, int col)
 {
-  //C1& ll = const_cast<QDPSubType<T1,C1>&>(l).field();
-  C1 ll( l.getF() , 1.0 );
-
-  const Subset& s = l.subset();
-
-  evaluate(ll,FnPokeSpinMatrix(row,col),r,s);
-  return ll;
+  return pokeSubType(static_cast<const typename QDPSubTypeTrait<C1>::Type_t&>(l),FnPokeSpinMatrix(row,col),r);
 }
 
 
@@ -594,13 +602,7 @@ template<class T1,class C1,class T2,class C2>
 inline C1
 pokeSpin(const QDPSubType<T1,C1>& l, const QDPType<T2,C2>& r, int row)
 {
-  //C1& ll = const_cast<QDPSubType<T1,C1>&>(l).field();
-  C1 ll( l.getF() , 1.0 );
-
-  const Subset& s = l.subset();
-
-  evaluate(ll,FnPokeSpinVector(row),PETE_identity(r),s);
-  return ll;
+  return pokeSubType(static_cast<const typename QDPSubTypeTrait<C1>::Type_t&>(l),FnPokeSpinVector(row),PETE_identity(r));
 }
 
 
@@ -608,13 +610,7 @@ template<class T1,class C1,class T2,class C2>
 inline C1
 pokeSpin(const QDPSubType<T1,C1>& l, const QDPExpr<T2,C2>& r, int row)
 {
-  //C1& ll = const_cast<QDPSubType<T1,C1>&>(l).field();
-  C1 ll( l.getF() , 1.0 );
-
-  const Subset& s = l.subset();
-
-  evaluate(ll,FnPokeSpinVector(row),r,s);
-  return ll;
+  return pokeSubType(static_cast<const typename QDPSubTypeTrait<C1>::Type_t&>(l),FnPokeSpinVector(row),r);
 }
 
 
-- 
2.43.0


From a8773d3c9d296bfebd0ef67168cbfce41c7339d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 40/48] fix: nothing compiled with profiling enabled

---
 include/qdp_profile.h         | 96 ++++++++++++++++++++++++++++-------
 include/qdp_scalar_specific.h | 14 ++---
 lib/qdp_profile.cc            |  2 +-
 3 files changed, 87 insertions(+), 25 deletions(-)

diff --git a/include/qdp_profile.h b/include/qdp_profile.h
index dfb2151..6266e98 100644
--- a/include/qdp_profile.h
+++ b/include/qdp_profile.h
@@ -69,6 +69,18 @@ struct QDPProfile_t
   void init();
   QDPProfile_t() {init();}
 
+  //! Profile an operation known by name only
+  QDPProfile_t(const char* name)
+    {
+      init();
+
+      if (getProfileLevel() > 0)
+      {
+	expr = name;
+	registerProfile(this);
+      }
+    }
+
   //! Profile rhs
   template<class T, class C, class Op, class RHS, class C1>
   QDPProfile_t(const QDPType<T,C>& dest, const Op& op, const QDPExpr<RHS,C1>& rhs)
@@ -77,7 +89,7 @@ struct QDPProfile_t
 
       if (getProfileLevel() > 0)
       {
-	ostringstream os;
+	std::ostringstream os;
 	printExprTree(os, dest, op, rhs);
 	expr = os.str();
 	registerProfile(this);
@@ -95,7 +107,7 @@ struct QDPProfile_t
 	typedef UnaryNode<OpOuter, typename CreateLeaf<QDPExpr<RHS,C1> >::Leaf_t> Tree_t;
 	typedef typename UnaryReturn<C1,OpOuter>::Type_t Container_t;
 
-	ostringstream os;
+	std::ostringstream os;
 	printExprTree(os, dest, op, 
 		      MakeReturn<Tree_t,Container_t>::make(Tree_t(
 			CreateLeaf<QDPExpr<RHS,C1> >::make(rhs))));
@@ -115,7 +127,7 @@ struct QDPProfile_t
 	typedef UnaryNode<OpOuter, typename CreateLeaf<QDPType<T1,C1> >::Leaf_t> Tree_t;
 	typedef typename UnaryReturn<C1,OpOuter>::Type_t Container_t;
 
-	ostringstream os;
+	std::ostringstream os;
 	printExprTree(os, dest, op, 
 		      MakeReturn<Tree_t,Container_t>::make(Tree_t(
 			CreateLeaf<QDPType<T1,C1> >::make(rhs))));
@@ -156,6 +168,19 @@ struct QDPProfileHead_t
 
 
 
+//
+// struct PrintTag
+//
+// Tag struct to carry an ostream ref through the parse tree.
+//
+
+struct PrintTag
+{
+  std::ostream &os_m;
+  PrintTag(std::ostream &os) : os_m(os) {}
+};
+
+
 //! Print an expression tree
 /*! 
  * PrintAssign traverses the parse-tree and prints the expression 
@@ -163,7 +188,7 @@ struct QDPProfileHead_t
  */
 template<class T, class C, class Op, class RHS, class C1>
 //inline
-void printExprTree(ostream& os, 
+void printExprTree(std::ostream& os, 
 		   const QDPType<T,C>& dest, const Op& op, const QDPExpr<RHS,C1>& rhs)
 {
   typedef EvalLeaf1    FTag_t;
@@ -193,19 +218,6 @@ void printExprTree(ostream& os,
   os << ";";
 }
 
-//
-// struct PrintTag
-//
-// Tag struct to carry an ostream ref through the parse tree.
-//
-
-struct PrintTag
-{
-  mutable ostream &os_m;
-  PrintTag(ostream &os) : os_m(os) {}
-};
-
-
 //
 // struct LeafFunctor<QDPType<T,C>, PrintTag>
 //
@@ -474,6 +486,17 @@ struct LeafFunctor<GammaType<N>, PrintTag>
     }
 };
 
+template<int N>
+struct LeafFunctor<GammaTypeDP<N>, PrintTag>
+{
+  typedef int Type_t;
+  static int apply(const GammaTypeDP<N> &s, const PrintTag &f)
+    { 
+      f.os_m << "GammaTypeDP";
+      return 0;
+    }
+};
+
 template<int N, int m>
 struct LeafFunctor<GammaConst<N,m>, PrintTag>
 {
@@ -485,6 +508,17 @@ struct LeafFunctor<GammaConst<N,m>, PrintTag>
     }
 };
 
+template<int N, int m>
+struct LeafFunctor<GammaConstDP<N,m>, PrintTag>
+{
+  typedef int Type_t;
+  static int apply(const GammaConstDP<N,m> &s, const PrintTag &f)
+    { 
+      f.os_m << "GammaConstDP";
+      return 0;
+    }
+};
+
 
 
 
@@ -1336,6 +1370,13 @@ struct TagVisitor<OpGammaConstMultiply, PrintTag> : public ParenPrinter<OpGammaC
     { t.os_m << "*"; }
 };
 
+template <>
+struct TagVisitor<OpGammaConstDPMultiply, PrintTag> : public ParenPrinter<OpGammaConstDPMultiply>
+{ 
+  static void visit(OpGammaConstDPMultiply op, PrintTag t) 
+    { t.os_m << "*"; }
+};
+
 template <>
 struct TagVisitor<OpMultiplyGammaConst, PrintTag> : public ParenPrinter<OpMultiplyGammaConst>
 { 
@@ -1343,6 +1384,13 @@ struct TagVisitor<OpMultiplyGammaConst, PrintTag> : public ParenPrinter<OpMultip
     { t.os_m << "*"; }
 };
 
+template <>
+struct TagVisitor<OpMultiplyGammaConstDP, PrintTag> : public ParenPrinter<OpMultiplyGammaConstDP>
+{ 
+  static void visit(OpMultiplyGammaConstDP op, PrintTag t) 
+    { t.os_m << "*"; }
+};
+
 template <>
 struct TagVisitor<OpGammaTypeMultiply, PrintTag> : public ParenPrinter<OpGammaTypeMultiply>
 { 
@@ -1350,6 +1398,13 @@ struct TagVisitor<OpGammaTypeMultiply, PrintTag> : public ParenPrinter<OpGammaTy
     { t.os_m << "*"; }
 };
 
+template <>
+struct TagVisitor<OpGammaTypeDPMultiply, PrintTag> : public ParenPrinter<OpGammaTypeDPMultiply>
+{ 
+  static void visit(OpGammaTypeDPMultiply op, PrintTag t) 
+    { t.os_m << "*"; }
+};
+
 template <>
 struct TagVisitor<OpMultiplyGammaType, PrintTag> : public ParenPrinter<OpMultiplyGammaType>
 { 
@@ -1357,6 +1412,13 @@ struct TagVisitor<OpMultiplyGammaType, PrintTag> : public ParenPrinter<OpMultipl
     { t.os_m << "*"; }
 };
 
+template <>
+struct TagVisitor<OpMultiplyGammaTypeDP, PrintTag> : public ParenPrinter<OpMultiplyGammaTypeDP>
+{ 
+  static void visit(OpMultiplyGammaTypeDP op, PrintTag t) 
+    { t.os_m << "*"; }
+};
+
 
 //------------------------------------------------------------------------
 // Special optimizations
diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index 93acd4b..accc074 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -241,7 +241,7 @@ void evaluate_F(T* dest, const Op& op, const QDPExpr<RHS,OLattice<T1> >& rhs,
   //cerr << "In evaluate_F(olattice,olattice)" << endl;
 
 #if defined(QDP_USE_PROFILING)   
-  static QDPProfile_t prof(dest, op, rhs);
+  static QDPProfile_t prof("field on a subset");
   prof.time -= getClockTime();
 #endif
 
@@ -843,7 +843,7 @@ sumMulti(const multi1d< OScalar<T> >& s1, const Set& ss)
   multi2d<typename UnaryReturn<OScalar<T>, FnSum>::Type_t>  dest(s1.size(),ss.numSubsets());
 
 #if defined(QDP_USE_PROFILING)   
-  static QDPProfile_t prof(dest(0,0), OpAssign(), FnSum(), s1);
+  static QDPProfile_t prof("sumMulti(OScalar)");
   prof.time -= getClockTime();
 #endif
 
@@ -878,7 +878,7 @@ sumMulti(const multi1d< OLattice<T> >& s1, const Set& ss)
   multi2d<typename UnaryReturn<OLattice<T>, FnSum>::Type_t>  dest(s1.size(),ss.numSubsets());
 
 #if defined(QDP_USE_PROFILING)   
-  static QDPProfile_t prof(dest(0,0), OpAssign(), FnSum(), s1);
+  static QDPProfile_t prof("sumMulti(OLattice)");
   prof.time -= getClockTime();
 #endif
 
@@ -1439,7 +1439,7 @@ isnan(const OLattice<T>& s1)
   bool d = false;
 
 #if defined(QDP_USE_PROFILING)   
-  static QDPProfile_t prof(d, OpAssign(), FnIsNan(), s1);
+  static QDPProfile_t prof("isnan(OLattice)");
   prof.time -= getClockTime();
 #endif
 
@@ -1484,7 +1484,7 @@ isinf(const OLattice<T>& s1)
   bool d = false;
 
 #if defined(QDP_USE_PROFILING)   
-  static QDPProfile_t prof(d, OpAssign(), FnIsInf(), s1);
+  static QDPProfile_t prof("isinf(OLattice)");
   prof.time -= getClockTime();
 #endif
 
@@ -1529,7 +1529,7 @@ isfinite(const OLattice<T>& s1)
   bool d = true;
 
 #if defined(QDP_USE_PROFILING)   
-  static QDPProfile_t prof(d, OpAssign(), FnIsFinite(), s1);
+  static QDPProfile_t prof("isfinite(OLattice)");
   prof.time -= getClockTime();
 #endif
 
@@ -1574,7 +1574,7 @@ isnormal(const OLattice<T>& s1)
   bool d = true;
 
 #if defined(QDP_USE_PROFILING)   
-  static QDPProfile_t prof(d, OpAssign(), FnIsNormal(), s1);
+  static QDPProfile_t prof("isnormal(OLattice)");
   prof.time -= getClockTime();
 #endif
 
diff --git a/lib/qdp_profile.cc b/lib/qdp_profile.cc
index 8501de7..e29060a 100644
--- a/lib/qdp_profile.cc
+++ b/lib/qdp_profile.cc
@@ -141,7 +141,7 @@ printProfile()
 	  // is not really a stream instantiation, hence the needed member functions
 	  // are not there. Sigh.
 	  char lin[80];  // more than adequate
-	  sprintf(lin, "  %7d   [%8d]  ", qp->count, qp->time);
+	  sprintf(lin, "  %7d   [%8lu]  ", qp->count, qp->time);
 	  QDPIO::cout << lin << qp->expr << std::endl;
 	}
 
-- 
2.43.0


From 1a9b634e11b1fdd0c857f51b487e93a5fc1d0b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 41/48] fix: QDP_info, QDP_error and QDP_error_exit overran
 their buffer with a message longer than 1023 characters

---
 lib/qdp_util.cc | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/lib/qdp_util.cc b/lib/qdp_util.cc
index 21cb785..6e20ce9 100644
--- a/lib/qdp_util.cc
+++ b/lib/qdp_util.cc
@@ -5,6 +5,8 @@
  */
 
 #include <cstdarg>
+#include <cstdio>
+#include <vector>
 #include <unistd.h>
 
 #include "qdp.h"
@@ -36,6 +38,24 @@ int gethostname(char *hostname, size_t size)
 
 namespace QDP {
 
+/**
+ * The formatted message, of whatever length
+ */
+static int
+formatMessage (std::vector<char>& buffer, const char* format, va_list argp)
+{
+  va_list again;
+  va_copy (again, argp);
+  int status = vsnprintf (0, 0, format, again);
+  va_end (again);
+
+  buffer.assign (status < 0 ? 1 : status + 1, '\0');
+  if (status > 0)
+    vsnprintf (&buffer[0], buffer.size (), format, argp);
+  return status;
+}
+
+
 /**
  * Simple information display routine
  */
@@ -43,21 +63,22 @@ int
 QDP_info (const char* format, ...)
 {
   va_list argp;
-  char    info[128], hostname[256];
-  char    buffer[1024];
+  char    info[384], hostname[256];
+  std::vector<char> buffer;
 
   /* get machine host name */
   gethostname (hostname, sizeof (hostname) - 1);
+  hostname[sizeof (hostname) - 1] = '\0';
   int rank = Layout::nodeNumber();
   int size = Layout::numNodes();
   sprintf (info, "QDP m%d,n%d@%s info: ", 
 	   rank, size, hostname);
 
   va_start (argp, format);
-  int status = vsprintf (buffer, format, argp);
+  int status = formatMessage (buffer, format, argp);
   va_end (argp);
 
-  fprintf (stdout, "%s %s\n", info, buffer);
+  fprintf (stdout, "%s %s\n", info, &buffer[0]);
   return status;
 }
 
@@ -69,20 +90,21 @@ int
 QDP_error (const char* format, ...)
 {
   va_list argp;
-  char    info[128], hostname[256];
-  char    buffer[1024];
+  char    info[384], hostname[256];
+  std::vector<char> buffer;
 
   /* get machine host name */
   gethostname (hostname, sizeof (hostname) - 1);
+  hostname[sizeof (hostname) - 1] = '\0';
   int rank = Layout::nodeNumber();
   int size = Layout::numNodes();
   sprintf (info, "QDP m%d,n%d@%s error: ", rank, size, hostname);
 	   
   va_start (argp, format);
-  int status = vsprintf (buffer, format, argp);
+  int status = formatMessage (buffer, format, argp);
   va_end (argp);
 
-  fprintf (stderr, "%s %s\n", info, buffer);
+  fprintf (stderr, "%s %s\n", info, &buffer[0]);
   return status;
 }
 
@@ -93,20 +115,21 @@ void
 QDP_error_exit (const char* format, ...)
 {
   va_list argp;
-  char    info[128], hostname[256];
-  char    buffer[1024];
+  char    info[384], hostname[256];
+  std::vector<char> buffer;
 
   /* get machine host name */
   gethostname (hostname, sizeof (hostname) - 1);
+  hostname[sizeof (hostname) - 1] = '\0';
   int rank = Layout::nodeNumber();
   int size = Layout::numNodes();
   sprintf (info, "QDP m%d,n%d@%s fatal error: ", rank, size, hostname);
 	   
   va_start (argp, format);
-  vsprintf (buffer, format, argp);
+  formatMessage (buffer, format, argp);
   va_end (argp);
 
-  fprintf (stderr, "%s %s\n", info, buffer);
+  fprintf (stderr, "%s %s\n", info, &buffer[0]);
 
   QDP_abort(1);  // Abort knows how to shutdown the machine
 }
-- 
2.43.0


From 1f552dd25a0c65002cf23527e7687176b4369a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 42/48] fix: a profiling option lacking its argument at the end
 of the command line crashed before it was diagnosed

---
 lib/qdp_scalar_init.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_scalar_init.cc b/lib/qdp_scalar_init.cc
index 2d87823..92bf300 100644
--- a/lib/qdp_scalar_init.cc
+++ b/lib/qdp_scalar_init.cc
@@ -110,7 +110,7 @@ void QDP_initialize(int *argc, char ***argv)
 	setProgramProfileLevel(lev);
     }
 #endif
-    if ( strcmp((*argv)[i],"-poolsize")==0)
+    if ( i < *argc && strcmp((*argv)[i],"-poolsize")==0)
       {
 	if (++i < *argc)
 	  sscanf((*argv)[i], "%f", &pool_size_in_gb);
-- 
2.43.0


From 0688ffb51a43141a4c8b0cd4d43d9c947816a668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 43/48] fix: with profiling enabled, the first statement after
 a second QDP_initialize aborted

---
 lib/qdp_parscalar_init.cc    | 1 +
 lib/qdp_parscalarvec_init.cc | 1 +
 lib/qdp_profile.cc           | 4 +++-
 lib/qdp_scalar_init.cc       | 1 +
 lib/qdp_scalarvec_init.cc    | 1 +
 5 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/qdp_parscalar_init.cc b/lib/qdp_parscalar_init.cc
index d8b520f..790c80c 100644
--- a/lib/qdp_parscalar_init.cc
+++ b/lib/qdp_parscalar_init.cc
@@ -349,6 +349,7 @@ namespace QDP {
 #endif 
 		
 		printProfile();
+		closeProfile();
 		
 		QMP_finalize_msg_passing();
 		
diff --git a/lib/qdp_parscalarvec_init.cc b/lib/qdp_parscalarvec_init.cc
index c674459..97f4b4c 100644
--- a/lib/qdp_parscalarvec_init.cc
+++ b/lib/qdp_parscalarvec_init.cc
@@ -211,6 +211,7 @@ void QDP_finalize()
   }
 
   printProfile();
+  closeProfile();
 
 #if defined(QDP_USE_HDF5)
   H5close();
diff --git a/lib/qdp_profile.cc b/lib/qdp_profile.cc
index e29060a..4526929 100644
--- a/lib/qdp_profile.cc
+++ b/lib/qdp_profile.cc
@@ -106,7 +106,9 @@ closeProfile()
   if (! prof_init)
     return;
 
-  popProfileInfo();
+  prof_init = false;
+  while (! infostack.empty())
+    popProfileInfo();
 }
 
 void 
diff --git a/lib/qdp_scalar_init.cc b/lib/qdp_scalar_init.cc
index 92bf300..b4ee3fe 100644
--- a/lib/qdp_scalar_init.cc
+++ b/lib/qdp_scalar_init.cc
@@ -160,6 +160,7 @@ void QDP_finalize()
 #endif 
 
   printProfile();
+  closeProfile();
 
   isInit = false;
 }
diff --git a/lib/qdp_scalarvec_init.cc b/lib/qdp_scalarvec_init.cc
index d094e48..4a23096 100644
--- a/lib/qdp_scalarvec_init.cc
+++ b/lib/qdp_scalarvec_init.cc
@@ -81,6 +81,7 @@ bool QDP_isInitialized() {return isInit;}
 void QDP_finalize()
 {
   printProfile();
+  closeProfile();
 
   isInit = false;
 }
-- 
2.43.0


From dbd4762e978f6b85be6e814b7f51d8eeccc9204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 44/48] fix: popping the profile info left the inner profile
 level in force

---
 lib/qdp_profile.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/qdp_profile.cc b/lib/qdp_profile.cc
index 4526929..8435d30 100644
--- a/lib/qdp_profile.cc
+++ b/lib/qdp_profile.cc
@@ -199,10 +199,10 @@ void popProfileInfo()
     QDP_abort(1);
   }
 
-  QDPProfileInfo_t& info = infostack.top();
-  setProfileLevel(info.level);
-
   infostack.pop();
+
+  // back to the level in force before the matching push
+  setProfileLevel(infostack.empty() ? 0 : infostack.top().level);
 }
 
 void
-- 
2.43.0


From 4b90d7efa8549d5ef144b63cb428aefde0ddc3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 45/48] fix: dividing a large range among threads overflowed
 and gave threads the wrong indices

---
 include/qdp_dispatch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_dispatch.h b/include/qdp_dispatch.h
index fa38077..be6570e 100644
--- a/include/qdp_dispatch.h
+++ b/include/qdp_dispatch.h
@@ -39,14 +39,14 @@ void dispatch_to_threads(int numSiteTable, Arg a, void (*func)(int,int,int, Arg*
       int active_threads_num = threads_num > numSiteTable ? numSiteTable : threads_num;
 
       if( myId < numSiteTable ) {
-    	  int low = (numSiteTable*myId)/active_threads_num;
+    	  int low = (int)(((long long)numSiteTable*myId)/active_threads_num);
 
       	  // NB: high can never be too high since for the last thread
       	  // myId + 1 = (threads_num - 1) + 1 = threads_num.
       	  // So numSiteTable*(myId+1) will always be a strict multiple of threads_num
       	  // and so truncation issues will not bite.
       	  // I am addig in the parentheses tho to force the precedence
-      	  int high =(numSiteTable*(myId+1))/active_threads_num;
+      	  int high = (int)(((long long)numSiteTable*(myId+1))/active_threads_num);
  
       	  func(low, high, myId, &a);
       }
-- 
2.43.0


From 8a585bb5a3137c35e72620ad7cf090f9890a1f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 46/48] fix: SSE copies, sums and differences of colour-matrix
 fields on a subset starting at an odd site used aligned access to unaligned
 memory

---
 lib/scalarsite_sse/qdp_scalarsite_sse.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/scalarsite_sse/qdp_scalarsite_sse.cc b/lib/scalarsite_sse/qdp_scalarsite_sse.cc
index 5101ee4..b56a22d 100644
--- a/lib/scalarsite_sse/qdp_scalarsite_sse.cc
+++ b/lib/scalarsite_sse/qdp_scalarsite_sse.cc
@@ -617,7 +617,7 @@ void evaluate(OLattice< TCol >& d,
 
   
     for(unsigned int i = 0 ; i < total_v4sf; i++, d_ptr_v4sf +=4, r_ptr_v4sf+=4 ) { 
-      _mm_store_ps( d_ptr_v4sf, _mm_load_ps(r_ptr_v4sf));
+      _mm_storeu_ps( d_ptr_v4sf, _mm_loadu_ps(r_ptr_v4sf));
     }
   
     
@@ -674,8 +674,8 @@ void evaluate(OLattice< TCol >& d,
     
     
     for(unsigned int i = 0 ; i < total_v4sf; i++, d_ptr_v4sf +=4, r_ptr_v4sf+=4 ) { 
-      _mm_store_ps( d_ptr_v4sf, _mm_add_ps( _mm_load_ps(d_ptr_v4sf), 
-					    _mm_load_ps(r_ptr_v4sf) ) );
+      _mm_storeu_ps( d_ptr_v4sf, _mm_add_ps( _mm_loadu_ps(d_ptr_v4sf), 
+					    _mm_loadu_ps(r_ptr_v4sf) ) );
     }
     
     
@@ -731,8 +731,8 @@ void evaluate(OLattice< TCol >& d,
     
     
     for(unsigned int i = 0 ; i < total_v4sf; i++, d_ptr_v4sf +=4, r_ptr_v4sf+=4 ) { 
-      _mm_store_ps( d_ptr_v4sf, _mm_sub_ps( _mm_load_ps( d_ptr_v4sf), 
-					    _mm_load_ps( r_ptr_v4sf) ) );
+      _mm_storeu_ps( d_ptr_v4sf, _mm_sub_ps( _mm_loadu_ps( d_ptr_v4sf), 
+					    _mm_loadu_ps( r_ptr_v4sf) ) );
     }
     
     
-- 
2.43.0


From bf797185a1914715a66eb06936a57eabfd7140e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 47/48] fix: with threads, SSE norm2 and innerProduct of fewer
 sites than threads added up stale results

---
 include/scalarsite_sse/qdp_scalarsite_sse_blas.h     |  6 ++++++
 .../scalarsite_sse/qdp_scalarsite_sse_blas_double.h  | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/scalarsite_sse/qdp_scalarsite_sse_blas.h b/include/scalarsite_sse/qdp_scalarsite_sse_blas.h
index 5668c48..9313b05 100644
--- a/include/scalarsite_sse/qdp_scalarsite_sse_blas.h
+++ b/include/scalarsite_sse/qdp_scalarsite_sse_blas.h
@@ -2217,6 +2217,9 @@ norm2(const QDPType<TVec ,OLattice< TVec > >& s1, const Subset& s)
     arg.vptr = (REAL32*) &(s1.elem(s.start()).elem(0).elem(0).real());
     arg.results = ThreadReductions::norm2_results;
     arg.func = local_sumsq_24_48;
+    // a thread that gets no work leaves its result alone
+    for(int i=0; i < qdpNumThreads(); i++)
+      arg.results[i] = 0;
     dispatch_to_threads(n_real, arg, ordered_norm_single_func);
     
     REAL64 ltmp=arg.results[0];
@@ -2263,6 +2266,9 @@ norm2(const QDPType<TVec ,OLattice< TVec > >& s1)
   arg.vptr = (REAL32*) &(s1.elem(all.start()).elem(0).elem(0).real());
   arg.results = ThreadReductions::norm2_results;
   arg.func = local_sumsq_24_48;
+  // a thread that gets no work leaves its result alone
+  for(int i=0; i < qdpNumThreads(); i++)
+    arg.results[i] = 0;
   dispatch_to_threads(n_real, arg, ordered_norm_single_func);
   
     
diff --git a/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h b/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h
index 97baf95..df4490e 100644
--- a/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h
+++ b/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h
@@ -2572,6 +2572,9 @@ norm2(const QDPType<DVec ,OLattice< DVec > >& s1, const Subset& s)
     arg.vptr = (REAL64*)&(s1.elem(s.start()).elem(0).elem(0).real());
     arg.results = ThreadReductions::norm2_results;
     arg.func = local_sumsq4;
+    // a thread that gets no work leaves its result alone
+    for(int i=0; i < qdpNumThreads(); i++)
+      arg.results[i] = 0;
     dispatch_to_threads(n4vec, arg, ordered_norm_double_func);
     REAL64 lsum=arg.results[0];
     for(int i=1; i < qdpNumThreads(); i++) { 
@@ -2630,6 +2633,9 @@ norm2(const QDPType<DVec ,OLattice< DVec > >& s1)
   arg.results = ThreadReductions::norm2_results;
 
 
+  // a thread that gets no work leaves its result alone
+  for(int i=0; i < qdpNumThreads(); i++)
+    arg.results[i] = 0;
   dispatch_to_threads(n4vec, arg, ordered_norm_double_func);
 
   // Sum partial results
@@ -2672,6 +2678,9 @@ innerProduct(const QDPType< DVec, OLattice<DVec> > &v1,
     arg.func = local_vcdot4;
     arg.results = ThreadReductions::innerProd_results;
 
+    // a thread that gets no work leaves its result alone
+    for(int i=0; i < 2*qdpNumThreads(); i++)
+      arg.results[i] = 0;
     dispatch_to_threads(n4vec, arg, ordered_inner_product_double_func);
     REAL64 ip[2] = { arg.results[0],arg.results[1] };
 
@@ -2741,6 +2750,9 @@ innerProduct(const QDPType< DVec, OLattice<DVec> > &v1,
     arg.func = local_vcdot4;
     arg.results = ThreadReductions::innerProd_results;
 
+    // a thread that gets no work leaves its result alone
+    for(int i=0; i < 2*qdpNumThreads(); i++)
+      arg.results[i] = 0;
     dispatch_to_threads(n4vec, arg, ordered_inner_product_double_func);
     REAL64 ip[2] = { arg.results[0],arg.results[1] };
 
-- 
2.43.0


From d75eb726adb3cb05e039ae8f9b9b408f2919bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:33 +0000
Subject: [PATCH 48/48] fix: generic chiral-projector kernels read past the
 last site of the range, racing with the thread that writes the next one

---
 include/scalarsite_generic/generic_blas_vadd3_g5.h   | 6 ------
 include/scalarsite_generic/generic_blas_vaxpby3_g5.h | 2 --
 include/scalarsite_generic/generic_blas_vaxpy3_g5.h  | 1 -
 include/scalarsite_generic/generic_blas_vaypx3_g5.h  | 6 ------
 4 files changed, 15 deletions(-)

diff --git a/include/scalarsite_generic/generic_blas_vadd3_g5.h b/include/scalarsite_generic/generic_blas_vadd3_g5.h
index bd5b2af..b4b5748 100644
--- a/include/scalarsite_generic/generic_blas_vadd3_g5.h
+++ b/include/scalarsite_generic/generic_blas_vadd3_g5.h
@@ -138,10 +138,7 @@ void add_g5ProjPlus(REAL *Out, REAL *X, REAL *Y, int n_4vec)
     x2i = (double)X[index_x++];
     Out[index_z++] =(REAL) x1i;
    
-    // Cache pulls
-    x0r = (double)X[index_x];
     Out[index_z++] =(REAL) x2r;
-    x0i = (double)X[index_x+1];
     Out[index_z++] =(REAL) x2i;
 
     
@@ -410,10 +407,7 @@ void sub_g5ProjPlus(REAL *Out, REAL *X, REAL *Y,int n_4vec)
     x2i = (double)X[index_x++];
     Out[index_z++] =(REAL) x1i;
    
-    // Cache pulls
-    x0r = (double)X[index_x];
     Out[index_z++] =(REAL) x2r;
-    x0i = (double)X[index_x+1];
     Out[index_z++] =(REAL) x2i;
 
     
diff --git a/include/scalarsite_generic/generic_blas_vaxpby3_g5.h b/include/scalarsite_generic/generic_blas_vaxpby3_g5.h
index 3febb7f..e657881 100644
--- a/include/scalarsite_generic/generic_blas_vaxpby3_g5.h
+++ b/include/scalarsite_generic/generic_blas_vaxpby3_g5.h
@@ -155,7 +155,6 @@ void axpbyz_g5ProjPlus(REAL *Out,REAL *scalep,REAL *InScale, REAL *scalep2, REAL
 
     // Spin Component 3
     x0r = (double)InScale[index_x++];
-    y0r = (double)Add[index_y];      // Pull into cache
     z0r = a*x0r;
     Out[index_z++] =(REAL) z0r;
     
@@ -491,7 +490,6 @@ void axmbyz_g5ProjPlus(REAL *Out,REAL *scalep,REAL *InScale, REAL *scalep2, REAL
 
     // Spin Component 3
     x0r = (double)InScale[index_x++];
-    y0r = (double)Add[index_y];      // Pull into cache
     z0r = a*x0r;
     Out[index_z++] =(REAL) z0r;
     
diff --git a/include/scalarsite_generic/generic_blas_vaxpy3_g5.h b/include/scalarsite_generic/generic_blas_vaxpy3_g5.h
index dae3710..d928c2e 100644
--- a/include/scalarsite_generic/generic_blas_vaxpy3_g5.h
+++ b/include/scalarsite_generic/generic_blas_vaxpy3_g5.h
@@ -140,7 +140,6 @@ void axpyz_g5ProjPlus(REAL *Out,REAL *scalep,REAL *InScale, REAL *Add,int n_4vec
 
     // Spin Component 3
     x0r = (double)InScale[index_x++];
-    y0r = (double)Add[index_y];      // Pull into cache
     z0r = a*x0r;
     Out[index_z++] =(REAL) z0r;
     
diff --git a/include/scalarsite_generic/generic_blas_vaypx3_g5.h b/include/scalarsite_generic/generic_blas_vaypx3_g5.h
index e3e25b2..058d9d3 100644
--- a/include/scalarsite_generic/generic_blas_vaypx3_g5.h
+++ b/include/scalarsite_generic/generic_blas_vaypx3_g5.h
@@ -140,10 +140,7 @@ void xpayz_g5ProjPlus(REAL *Out,REAL *scalep,REAL *Add, REAL *InScale,int n_4vec
     x2i = (double)Add[index_x++];
     Out[index_z++] =(REAL) x1i;
    
-    // Cache pulls
-    x0r = (double)Add[index_x];
     Out[index_z++] =(REAL) x2r;
-    x0i = (double)Add[index_x+1];
     Out[index_z++] =(REAL) x2i;
 
     
@@ -417,10 +414,7 @@ void xmayz_g5ProjPlus(REAL *Out,REAL *scalep,REAL *Add, REAL *InScale,int n_4vec
     x2i = (double)Add[index_x++];
     Out[index_z++] =(REAL) x1i;
    
-    // Cache pulls
-    x0r = (double)Add[index_x];
     Out[index_z++] =(REAL) x2r;
-    x0i = (double)Add[index_x+1];
     Out[index_z++] =(REAL) x2i;
 
     
-- 
2.43.0

