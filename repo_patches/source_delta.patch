From 8c724a4c050f1a445ffcc7d91b864cbf7c6c1704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 01/33] fix: LatticeHalfFermion h = u*h overwrote its operand
 before it was used

---
 .../qdp_scalarsite_generic_linalg_wrapper.h      | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h b/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h
index c1da599..0b14978 100644
--- a/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h
+++ b/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h
@@ -44,12 +44,16 @@ void ordered_linalg_evaluate_userfunc(int lo, int hi, int myId, ordered_linalg_u
    // Ordered Way - loop through sites and save a table lookup
    for(int i=low; i < high; i++) { 
       
+     // the destination may be the same field as r: finish the site before storing it
+     PSpinVector<PColorVector<RComplexFloat, 3>, 2> t;
+
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
 				      r.elem(i).elem(0),
-				      d.elem(i).elem(0));
+				      t.elem(0));
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
 				      r.elem(i).elem(1),
-				      d.elem(i).elem(1));
+				      t.elem(1));
+     d.elem(i) = t;
    }
   
 }
@@ -87,12 +91,16 @@ void unordered_linalg_evaluate_userfunc(int lo, int hi, int myId,  unordered_lin
    for(int j=lo; j < hi; j++) { 
      int i = tab[j];
       
+     // the destination may be the same field as r: finish the site before storing it
+     PSpinVector<PColorVector<RComplexFloat, 3>, 2> t;
+
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
 				      r.elem(i).elem(0),
-				      d.elem(i).elem(0));
+				      t.elem(0));
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
 				      r.elem(i).elem(1),
-				      d.elem(i).elem(1));
+				      t.elem(1));
+     d.elem(i) = t;
    } 
 }
 
-- 
2.43.0


From 6401fd944bc680d1d62f40331f8f74923e22e7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 02/33] fix: SSE LatticeColorMatrixD products overwrote an
 operand that is also the destination

---
 .../qdp_scalarsite_linalg_double.cc           | 47 ++++++++++++++++++-
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc b/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc
index 193f035..0b251ca 100644
--- a/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc
+++ b/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc
@@ -20,6 +20,23 @@ namespace QDP {
 // Specialization to optimize the case   
 //    LatticeColorMatrix[ Subset] = LatticeColorMatrix * LatticeColorMatrix
 
+// The kernels store elements of the result before they have finished reading
+// the operands. If the destination is itself an operand (e.g.  a = a*b), work
+// on a copy of each site of the destination.
+  inline
+  bool ssed_dest_is_operand(const REAL64* dm, const REAL64* lm, const REAL64* rm)
+  {
+    return (dm == lm) || (dm == rm);
+  }
+
+  struct ssed_site_copy {
+    ssed_site_copy(REAL64* dm_) : dm(dm_) { for(int k=0; k < 18; ++k) m[k] = dm[k]; }
+    ~ssed_site_copy() { for(int k=0; k < 18; ++k) dm[k] = m[k]; }
+
+    REAL64* dm;
+    REAL64 m[18] __attribute__((aligned(16)));
+  };
+
 // Threading hoist
   struct ordered_ssed_3mat_args {
     REAL64* lm;
@@ -40,6 +57,14 @@ namespace QDP {
     REAL64* rm = &(a->rm[index]);
     REAL64* dm = &(a->dm[index]);
 
+    if ( ssed_dest_is_operand(dm,lm,rm) ) {
+      for(int site=0; site < n_3mat; site++) {
+	ssed_site_copy tmp(&dm[18*site]);
+	func(tmp.m, &lm[18*site], &rm[18*site], 1);
+      }
+      return;
+    }
+
     func(dm,lm,rm, n_3mat);
   }
 
@@ -68,7 +93,12 @@ namespace QDP {
       REAL64 *lm = (REAL64 *)&(a->l.elem(i).elem().elem(0,0).real());
       REAL64 *rm = (REAL64 *)&(a->r.elem(i).elem().elem(0,0).real());
       REAL64 *dm = (REAL64 *)&(a->d.elem(i).elem().elem(0,0).real());
-      func(dm,lm, rm, 1);
+      if ( ssed_dest_is_operand(dm,lm,rm) ) {
+	ssed_site_copy tmp(dm);
+	func(tmp.m,lm, rm, 1);
+      }
+      else 
+	func(dm,lm, rm, 1);
     }
   }
       
@@ -279,6 +309,14 @@ void evaluate(OLattice< DCol >& d,
     REAL64* dm = &(a->dm[index]);
     REAL64* c  = a->c; // The const
 
+    if ( ssed_dest_is_operand(dm,lm,rm) ) {
+      for(int site=0; site < n_3mat; site++) {
+	ssed_site_copy tmp(&dm[18*site]);
+	func(tmp.m,c, &lm[18*site], &rm[18*site], 1);
+      }
+      return;
+    }
+
     func(dm,c,lm,rm, n_3mat);
   }
 
@@ -309,7 +347,12 @@ void evaluate(OLattice< DCol >& d,
       REAL64 *lm = (REAL64 *)&(a->l.elem(i).elem().elem(0,0).real());
       REAL64 *rm = (REAL64 *)&(a->r.elem(i).elem().elem(0,0).real());
       REAL64 *dm = (REAL64 *)&(a->d.elem(i).elem().elem(0,0).real());
-      func(dm,a->c, lm, rm, 1);
+      if ( ssed_dest_is_operand(dm,lm,rm) ) {
+	ssed_site_copy tmp(dm);
+	func(tmp.m,a->c, lm, rm, 1);
+      }
+      else 
+	func(dm,a->c, lm, rm, 1);
     }
   }
       
-- 
2.43.0


From c7d97c8b471b9182a5e1696c77e6973224a03b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 03/33] fix: copymask, random, gaussian, read and write on a
 subset view did not compile

---
 include/qdp_scalar_specific.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index fe40026..7f9d0c4 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -280,7 +280,9 @@ template<class T1, class T2>
 void 
 copymask(OSubLattice<T2> d, const OLattice<T1>& mask, const OLattice<T2>& s1) 
 {
-  OLattice<T2>& dest = d.field();
+  if (d.getOwnsMemory())
+    QDP_error_exit("copymask with subtype that is not a view called");
+  OLattice<T2> dest(d.getF(),1.0);
   const Subset& s = d.subset();
 
   const int *tab = s.siteTable().slice();
@@ -367,7 +369,9 @@ random(OLattice<T>& d, const Subset& s)
 template<class T>
 void random(OSubLattice<T> dd)
 {
-  OLattice<T>& d = dd.field();
+  if (dd.getOwnsMemory())
+    QDP_error_exit("random with subtype that is not a view called");
+  OLattice<T> d(dd.getF(),1.0);
   const Subset& s = dd.subset();
 
   random(d,s);
@@ -407,7 +411,9 @@ void gaussian(OLattice<T>& d, const Subset& s)
 template<class T>
 void gaussian(OSubLattice<T> dd)
 {
-  OLattice<T>& d = dd.field();
+  if (dd.getOwnsMemory())
+    QDP_error_exit("gaussian with subtype that is not a view called");
+  OLattice<T> d(dd.getF(),1.0);
   const Subset& s = dd.subset();
 
   gaussian(d,s);
@@ -2120,7 +2126,9 @@ void write(BinaryWriter& bin, OSubLattice<T> dd)
   const Subset& sub = dd.subset();
   const Set& set    = sub.getSet();
 
-  const OLattice<T>& d = dd.field();
+  if (dd.getOwnsMemory())
+    QDP_error_exit("write with subtype that is not a view called");
+  const OLattice<T> d(dd.getF(),1.0);
 
   const multi1d<int>& lat_color = set.latticeColoring();
   const int color = sub.color();
@@ -2195,7 +2203,9 @@ void read(BinaryReader& bin, OSubLattice<T> dd)
   const Subset& sub = dd.subset();
   const Set& set    = sub.getSet();
 
-  OLattice<T>& d = dd.field();
+  if (dd.getOwnsMemory())
+    QDP_error_exit("read with subtype that is not a view called");
+  OLattice<T> d(dd.getF(),1.0);
 
   const multi1d<int>& lat_color = set.latticeColoring();
   const int color = sub.color();
-- 
2.43.0


From d21f8410fdd9c1e7975bf3b619251d7105677632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:35 +0000
Subject: [PATCH 04/33] fix: apply a scalar right-hand side to every element of
 an owning OSubLattice

evaluate_F with an OScalar expression updated only the first element of the
subset storage, so d = c, d *= c etc. left the remaining sites untouched.
---
 include/qdp_outer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/qdp_outer.h b/include/qdp_outer.h
index 2bae99e..e974511 100644
--- a/include/qdp_outer.h
+++ b/include/qdp_outer.h
@@ -242,8 +242,9 @@ inline
 void evaluate_F(T* dest, const Op& op, const QDPExpr<RHS,OScalar<T1> >& rhs,
 	      const Subset& s)
 {
-  // Subset is not used at this level. It may be needed, though, within an inner operation
-  op(*dest, forEach(rhs, ElemLeaf(), OpCombine()));
+  // dest holds one element per site of the subset
+  for(int j=0; j < s.numSiteTable(); ++j)
+    op(dest[j], forEach(rhs, ElemLeaf(), OpCombine()));
 }
 
 
-- 
2.43.0


From f07b2a1071c97d395c3663b6a822faec74c8f744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 05/33] fix: copying a Set left its subsets pointing at the
 source set

Set::operator= (and the implicit copy constructor) copied the Subset objects
verbatim, so the subsets of the copy used the site tables of the source, which
dangle once the source is destroyed or rebuilt.
---
 include/qdp_subset.h |  3 +++
 lib/qdp_subset.cc    | 16 +++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/qdp_subset.h b/include/qdp_subset.h
index 38aa4e9..11b29a6 100644
--- a/include/qdp_subset.h
+++ b/include/qdp_subset.h
@@ -101,6 +101,9 @@ public:
   //! Constructor from a function object
   Set(const SetFunc& fn) {make(fn);}
 
+  //! Copy constructor
+  Set(const Set& s) {*this = s;}
+
   //! Constructor from a function object
   void make(const SetFunc& fn);
 
diff --git a/lib/qdp_subset.cc b/lib/qdp_subset.cc
index 68913b7..ee3ad3a 100644
--- a/lib/qdp_subset.cc
+++ b/lib/qdp_subset.cc
@@ -159,9 +159,19 @@ namespace QDP
   // = operator
   Set& Set::operator=(const Set& s)
   {
-    sub = s.sub;
-    lat_color = s.lat_color;
-    sitetables = s.sitetables;
+    if (this != &s)
+    {
+      sub = s.sub;
+      lat_color = s.lat_color;
+      sitetables = s.sitetables;
+
+      // The subsets must refer to the site tables held by this set
+      for(int i=0; i < sub.size(); ++i)
+      {
+	sub[i].sitetable = &(sitetables[i]);
+	sub[i].set = this;
+      }
+    }
     return *this;
   }
 
-- 
2.43.0


From 55c8441fc0c00b8ef3963c9453da2ddbe4e07703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 06/33] fix: where() on a mask with one complex and one real
 operand

The two overloads called real() on the RScalar operand, which has none, so
where(mask,complex,real) and where(mask,real,complex) never compiled.
---
 include/qdp_reality.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_reality.h b/include/qdp_reality.h
index 18da0a1..377a481 100644
--- a/include/qdp_reality.h
+++ b/include/qdp_reality.h
@@ -2488,7 +2488,7 @@ where(const RScalar<T1>& a, const RComplex<T2>& b, const RScalar<T3>& c)
   typedef typename InternalScalar<T3>::Type_t  S;
 
   // Not optimal - want to have where outside assignment
-  return Ret_t(where(a.elem(), b.real(), c.real()),
+  return Ret_t(where(a.elem(), b.real(), c.elem()),
 	       where(a.elem(), b.imag(), S(0)));
 }
 
@@ -2510,7 +2510,7 @@ where(const RScalar<T1>& a, const RScalar<T2>& b, const RComplex<T3>& c)
   typedef typename InternalScalar<T2>::Type_t  S;
 
   // Not optimal - want to have where outside assignment
-  return Ret_t(where(a.elem(), b.real(), c.real()),
+  return Ret_t(where(a.elem(), b.elem(), c.real()),
 	       where(a.elem(), S(0), c.imag()));
 }
 
-- 
2.43.0


From c3c8e922eace7556b7b4c6ef99306067f225da1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 07/33] fix: norm2/innerProduct/innerProductReal of an array of
 scalars

The loops bound non-const references to elements of a const multi1d, so
none of the three compiled.
---
 include/qdp_scalar_specific.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index 7f9d0c4..b507898 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -943,7 +943,7 @@ norm2(const multi1d< OScalar<T> >& s1)
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T>& ss1 = s1[n];
+    const OScalar<T>& ss1 = s1[n];
     d.elem() += localNorm2(ss1.elem());
   }
 
@@ -1065,8 +1065,8 @@ innerProduct(const multi1d< OScalar<T1> >& s1, const multi1d< OScalar<T2> >& s2)
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T1>& ss1 = s1[n];
-    OScalar<T2>& ss2 = s2[n];
+    const OScalar<T1>& ss1 = s1[n];
+    const OScalar<T2>& ss2 = s2[n];
     d.elem() += localInnerProduct(ss1.elem(),ss2.elem());
   }
 
@@ -1186,8 +1186,8 @@ innerProductReal(const multi1d< OScalar<T1> >& s1, const multi1d< OScalar<T2> >&
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T1>& ss1 = s1[n];
-    OScalar<T2>& ss2 = s2[n];
+    const OScalar<T1>& ss1 = s1[n];
+    const OScalar<T2>& ss2 = s2[n];
     d.elem() += localInnerProductReal(ss1.elem(),ss2.elem());
   }
 
-- 
2.43.0


From 8880a46a240ef45474840dcb4a40ecbada4c3a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 08/33] fix: return type of sumMulti on an array of fields

The result of summing multi1d<OLattice> (or multi1d<OScalar>) by subset is a
multi2d of sums, as it is in the other architectures and as the function
builds it; declared as a multi2d of multi1d it never compiled.
---
 include/qdp_scalar_specific.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index b507898..2ec4084 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -844,7 +844,7 @@ sumMulti(const QDPExpr<RHS,OLattice<T> >& s1, const Set& ss)
  * slices
  */
 template<class T>
-multi2d<typename UnaryReturn<OScalar<T>, FnSumMulti>::Type_t>
+multi2d<typename UnaryReturn<OScalar<T>, FnSum>::Type_t>
 sumMulti(const multi1d< OScalar<T> >& s1, const Set& ss)
 {
   multi2d<typename UnaryReturn<OScalar<T>, FnSum>::Type_t>  dest(s1.size(),ss.numSubsets());
@@ -879,7 +879,7 @@ sumMulti(const multi1d< OScalar<T> >& s1, const Set& ss)
  * version is fine.
  */
 template<class T>
-multi2d<typename UnaryReturn<OLattice<T>, FnSumMulti>::Type_t>
+multi2d<typename UnaryReturn<OLattice<T>, FnSum>::Type_t>
 sumMulti(const multi1d< OLattice<T> >& s1, const Set& ss)
 {
   multi2d<typename UnaryReturn<OLattice<T>, FnSum>::Type_t>  dest(s1.size(),ss.numSubsets());
-- 
2.43.0


From f8dacd610911bb23bef8bc04f26441831c3f90d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 09/33] fix: concat of arrays of anything but int

The result was built in a multi1d<int>, so concat did not compile for any
other element type.
---
 include/qdp_multi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 0034bdd..e4ea343 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -291,7 +291,7 @@ private:
 template<typename T>
 inline multi1d<T> concat(const multi1d<T>& l, const multi1d<T>& r)
 {
-  multi1d<int> nz(l.size() + r.size());
+  multi1d<T> nz(l.size() + r.size());
   int j = 0;
   for(int i=0; i < l.size(); ++i)
     nz[j++] = l[i];
-- 
2.43.0


From 4434f5d7b5fcbbecf838e49a49507c9656d281e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 10/33] fix: scalar minus multi1d

It used a unary minus that multi1d does not have and never compiled.
---
 include/qdp_multi.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index e4ea343..03d0d54 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -440,8 +440,9 @@ template< typename T>
 inline
 multi1d<T> operator-(const T& s, const multi1d<T>& a)
 {
-  multi1d<T> c(-a); 
-  c+=s;
+  multi1d<T> c(a.size()); 
+  c = s;
+  c -= a;
   return c;
 }
 //! Array - scalar
-- 
2.43.0


From fa38e17d6a4a37c484863dcbe9cf8cc81aeabd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 11/33] fix: multi5d constructor takes five sizes

It took four and called resize with four, which does not exist.
---
 include/qdp_multi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 03d0d54..946f508 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -930,7 +930,7 @@ template<class T> class multi5d
 public:
   multi5d() {F=0;n1=n2=n3=n4=n5=sz=0;copymem=false;}
   multi5d(T *f, int ns5, int ns4, int ns3, int ns2, int ns1) {F=f; n1=ns1; n2=ns2; n3=ns3; n4=ns4; n5=ns5; sz=n1*n2*n3*n4*n5; copymem=true;}
-  explicit multi5d(int ns4, int ns3, int ns2, int ns1) {copymem=false;F=0;resize(ns4,ns3,ns2,ns1);}
+  explicit multi5d(int ns5, int ns4, int ns3, int ns2, int ns1) {copymem=false;F=0;resize(ns5,ns4,ns3,ns2,ns1);}
   ~multi5d() {if (! copymem) {delete[] F;}}
 
   //! Copy constructor
-- 
2.43.0


From 1f9245868ef8b7a35296aec3474c5fa315ff206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 12/33] fix: strides of multiNd::operator() for unequal extents

operator[] and the documentation store the last index fastest; operator()
with two, three or four indices multiplied by the leading extents instead of
the trailing ones, so unless all extents were equal two different elements
shared storage, others were unreachable, and operator[] disagreed.
---
 include/qdp_multi.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 946f508..ca530df 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -1128,7 +1128,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*j];
+      return F[i+nz[1]*j];
     }
 
   //! Return const ref to an element
@@ -1140,7 +1140,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*j];
+      return F[i+nz[1]*j];
     }
 
   //! Return ref to an element
@@ -1152,7 +1152,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k))];
+      return F[i+nz[2]*(j+nz[1]*(k))];
     }
 
   //! Return const ref to an element
@@ -1164,7 +1164,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k))];
+      return F[i+nz[2]*(j+nz[1]*(k))];
     }
 
   //! Return ref to an element
@@ -1176,7 +1176,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k+nz[2]*l))];
+      return F[i+nz[3]*(j+nz[2]*(k+nz[1]*l))];
     }
 
   //! Return const ref to an element
@@ -1188,7 +1188,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k+nz[2]*l))];
+      return F[i+nz[3]*(j+nz[2]*(k+nz[1]*l))];
     }
 
   //! Return ref to an element via indices packed in a multi1d array
-- 
2.43.0


From b4c74c1ee1ca5bc48f44eb16b87468a810effb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 13/33] fix: self-assignment of multi2d, multi3d, multi4d,
 multi5d and multiNd

The assignment reallocated the destination before copying, so x = x replaced
the contents by uninitialised storage.
---
 include/qdp_multi.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index ca530df..375fef5 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -681,6 +681,9 @@ public:
   //! Equal operator uses underlying = of T
   multi2d<T>& operator=(const multi2d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size2(), s1.size1());   // always resize
 
       for(int i=0; i < sz; ++i)
@@ -780,6 +783,9 @@ public:
   //! Equal operator uses underlying = of T
   multi3d<T>& operator=(const multi3d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size3(), s1.size2(), s1.size1());
 
       for(int i=0; i < sz; ++i)
@@ -875,6 +881,9 @@ public:
   //! Equal operator uses underlying = of T
   multi4d<T>& operator=(const multi4d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size4(),s1.size3(),s1.size2(),s1.size1());
 
       for(int i=0; i < sz; ++i)
@@ -972,6 +981,9 @@ public:
   //! Equal operator uses underlying = of T
   multi5d<T>& operator=(const multi5d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size5(),s1.size4(),s1.size3(),s1.size2(),s1.size1());
 
       for(int i=0; i < sz; ++i)
@@ -1073,6 +1085,9 @@ public:
   //! Equal operator uses underlying = of T
   multiNd<T>& operator=(const multiNd<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size());
 
       for(int i=0; i < sz; ++i)
-- 
2.43.0


From 66cdd1ec116985c0b0fd2ae2b6a1ff17ddec2fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 14/33] fix: copying or assigning a default-constructed multiNd

Its element count was never initialised and resize dereferenced the null
array of extents.
---
 include/qdp_multi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 375fef5..dbad663 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -1038,7 +1038,7 @@ private:
 template<class T> class multiNd
 {
 public:
-  multiNd() {F=0;}
+  multiNd() {F=0;sz=0;}
   explicit multiNd(const multi1d<int>& _nz) {F=0;resize(_nz);}
   ~multiNd() {delete[] F;}
 
@@ -1056,7 +1056,7 @@ public:
     {
       delete[] F; 
       nz = _nz;
-      sz = nz[0];
+      sz = (nz.size() > 0) ? nz[0] : 0;
       for(int i=1; i < nz.size(); ++i)
 	sz *= nz[i];
       F = new(std::nothrow) T[sz];
-- 
2.43.0


From 77e33ab7260370fe18702a0a8b8d34f4192ed3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 15/33] fix: zero the per-thread partial sums of the SSE norm2
 and innerProduct

A thread without sites (fewer sites than threads) does not write its slot,
which then added the value of an earlier reduction.
---
 include/scalarsite_sse/qdp_scalarsite_sse_blas.h     |  6 ++++++
 .../scalarsite_sse/qdp_scalarsite_sse_blas_double.h  | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/scalarsite_sse/qdp_scalarsite_sse_blas.h b/include/scalarsite_sse/qdp_scalarsite_sse_blas.h
index 5668c48..8bfc5fa 100644
--- a/include/scalarsite_sse/qdp_scalarsite_sse_blas.h
+++ b/include/scalarsite_sse/qdp_scalarsite_sse_blas.h
@@ -2216,6 +2216,9 @@ norm2(const QDPType<TVec ,OLattice< TVec > >& s1, const Subset& s)
     ordered_sse_norm_single_user_arg arg;
     arg.vptr = (REAL32*) &(s1.elem(s.start()).elem(0).elem(0).real());
     arg.results = ThreadReductions::norm2_results;
+    // A thread that gets no sites does not write its slot
+    for(int i=0; i < qdpNumThreads(); i++)
+      arg.results[i] = 0;
     arg.func = local_sumsq_24_48;
     dispatch_to_threads(n_real, arg, ordered_norm_single_func);
     
@@ -2262,6 +2265,9 @@ norm2(const QDPType<TVec ,OLattice< TVec > >& s1)
   ordered_sse_norm_single_user_arg arg;
   arg.vptr = (REAL32*) &(s1.elem(all.start()).elem(0).elem(0).real());
   arg.results = ThreadReductions::norm2_results;
+  // A thread that gets no sites does not write its slot
+  for(int i=0; i < qdpNumThreads(); i++)
+    arg.results[i] = 0;
   arg.func = local_sumsq_24_48;
   dispatch_to_threads(n_real, arg, ordered_norm_single_func);
   
diff --git a/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h b/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h
index 97baf95..5023b79 100644
--- a/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h
+++ b/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h
@@ -2571,6 +2571,9 @@ norm2(const QDPType<DVec ,OLattice< DVec > >& s1, const Subset& s)
 
     arg.vptr = (REAL64*)&(s1.elem(s.start()).elem(0).elem(0).real());
     arg.results = ThreadReductions::norm2_results;
+    // A thread that gets no sites does not write its slot
+    for(int i=0; i < qdpNumThreads(); i++)
+      arg.results[i] = 0;
     arg.func = local_sumsq4;
     dispatch_to_threads(n4vec, arg, ordered_norm_double_func);
     REAL64 lsum=arg.results[0];
@@ -2628,6 +2631,9 @@ norm2(const QDPType<DVec ,OLattice< DVec > >& s1)
   arg.vptr = (REAL64*)&(s1.elem(all.start()).elem(0).elem(0).real());
   arg.func = local_sumsq4;
   arg.results = ThreadReductions::norm2_results;
+  // A thread that gets no sites does not write its slot
+  for(int i=0; i < qdpNumThreads(); i++)
+    arg.results[i] = 0;
 
 
   dispatch_to_threads(n4vec, arg, ordered_norm_double_func);
@@ -2671,6 +2677,9 @@ innerProduct(const QDPType< DVec, OLattice<DVec> > &v1,
     arg.yptr = (REAL64*)&(v2.elem(all.start()).elem(0).elem(0).real());
     arg.func = local_vcdot4;
     arg.results = ThreadReductions::innerProd_results;
+    // A thread that gets no sites does not write its slot
+    for(int i=0; i < 2*qdpNumThreads(); i++)
+      arg.results[i] = 0;
 
     dispatch_to_threads(n4vec, arg, ordered_inner_product_double_func);
     REAL64 ip[2] = { arg.results[0],arg.results[1] };
@@ -2740,6 +2749,9 @@ innerProduct(const QDPType< DVec, OLattice<DVec> > &v1,
     arg.yptr = (REAL64*)&(v2.elem(s.start()).elem(0).elem(0).real());
     arg.func = local_vcdot4;
     arg.results = ThreadReductions::innerProd_results;
+    // A thread that gets no sites does not write its slot
+    for(int i=0; i < 2*qdpNumThreads(); i++)
+      arg.results[i] = 0;
 
     dispatch_to_threads(n4vec, arg, ordered_inner_product_double_func);
     REAL64 ip[2] = { arg.results[0],arg.results[1] };
-- 
2.43.0


From 2babbefd93d4e1141be3a92bef1e231c3572734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 16/33] fix: int overflow in the OpenMP partition of large site
 tables

numSiteTable*(myId+1) exceeds int for a 64^3x128 lattice and 64 threads;
the last thread then got a negative end and did nothing.
---
 include/qdp_dispatch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_dispatch.h b/include/qdp_dispatch.h
index fa38077..60ba451 100644
--- a/include/qdp_dispatch.h
+++ b/include/qdp_dispatch.h
@@ -39,14 +39,14 @@ void dispatch_to_threads(int numSiteTable, Arg a, void (*func)(int,int,int, Arg*
       int active_threads_num = threads_num > numSiteTable ? numSiteTable : threads_num;
 
       if( myId < numSiteTable ) {
-    	  int low = (numSiteTable*myId)/active_threads_num;
+    	  int low = ((long long)numSiteTable*myId)/active_threads_num;
 
       	  // NB: high can never be too high since for the last thread
       	  // myId + 1 = (threads_num - 1) + 1 = threads_num.
       	  // So numSiteTable*(myId+1) will always be a strict multiple of threads_num
       	  // and so truncation issues will not bite.
       	  // I am addig in the parentheses tho to force the precedence
-      	  int high =(numSiteTable*(myId+1))/active_threads_num;
+      	  int high =((long long)numSiteTable*(myId+1))/active_threads_num;
  
       	  func(low, high, myId, &a);
       }
-- 
2.43.0


From ad76358693d95e81ba8a5da697e0c5dba06da19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 17/33] fix: keep the global seed when random() on a subset
 draws for no site

---
 include/qdp_scalar_specific.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index 2ec4084..c6db7ec 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -347,6 +347,7 @@ random(OLattice<T>& d, const Subset& s)
   {
     Seed seed;
     Seed skewed_seed;
+    bool drawn = false;   // some threads, or all of them for an empty subset, have no site
 
 #pragma omp for // need the barrier to avoid that RNG::ran_seed is changed too early
     for(int j=0; j < s.numSiteTable(); ++j) {
@@ -354,11 +355,13 @@ random(OLattice<T>& d, const Subset& s)
       seed = RNG::ran_seed;
       skewed_seed.elem() = RNG::ran_seed.elem() * RNG::lattice_ran_mult->elem(i);
       fill_random(d.elem(i), seed, skewed_seed, RNG::ran_mult_n);
+      drawn = true;
     }
 
 #pragma omp critical (random)
     {
-      RNG::ran_seed = seed;  // The seed from any site is the same as the new global seed
+      if (drawn)
+        RNG::ran_seed = seed;  // The seed from any site is the same as the new global seed
     }
   }
 
-- 
2.43.0


From f6463e936da751acd3ff57218f1e10d98b3a381f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 18/33] fix: RANNYU keeps the low 12 bits of the leading digit

---
 lib/qdp_rannyu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_rannyu.cc b/lib/qdp_rannyu.cc
index a7d294a..75a28ee 100644
--- a/lib/qdp_rannyu.cc
+++ b/lib/qdp_rannyu.cc
@@ -47,7 +47,7 @@ namespace QDP
 	ll[2] = ii[2] & 4095;
 	ii[1] = ii[1] + (ii[2] >> 12);
 	ll[1] = ii[1] & 4095;
-	ll[0] = (ii[0] + (ii[1] >> 12)) >> 12;
+	ll[0] = (ii[0] + (ii[1] >> 12)) & 4095;
 	ran = twom12*((double)ll[0] + twom12*((double)ll[1] + twom12*((double)ll[2] + twom12*((double)ll[3]))));
       }
     }
-- 
2.43.0


From 22e74d8bfc60fa15866fd0cbf011c605440844af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 19/33] fix: RANNYU setrn and savern before the first number

---
 lib/qdp_rannyu.cc | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/lib/qdp_rannyu.cc b/lib/qdp_rannyu.cc
index 75a28ee..cd2531b 100644
--- a/lib/qdp_rannyu.cc
+++ b/lib/qdp_rannyu.cc
@@ -53,21 +53,29 @@ namespace QDP
     }
 
 
+    // Initialize the global seed if needed
+    namespace
+    {
+      void __init()
+      {
+	if (! inited)
+	{
+	  ran_seed.resize(4);
+	  for(int i=0; i < 4; ++i)
+	    ran_seed[i] = __default_seed[i];
+
+	  inited = true;
+	}
+      }
+    }
+
+
     //! The RNG. Has side effects.
     double random()
     {
       double ran;
 
-      // Initialize the global seed if needed
-      if (! inited)
-      {
-	ran_seed.resize(4);
-	for(int i=0; i < 4; ++i)
-	  ran_seed[i] = __default_seed[i];
-
-	inited = true;
-      }
-
+      __init();
       __rand(ran, ran_seed);
       return ran;
     }
@@ -83,12 +91,14 @@ namespace QDP
       }
 	
       ran_seed = iseed;
+      inited = true;
     }
 
 
     //! Recover the seed
     multi1d<int> savern()
     {
+      __init();
       return ran_seed;
     }
 
-- 
2.43.0


From df05c5a5fe1f10624132c848f159352be64419bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 20/33] fix: initialise the checksum of buffer readers and
 writers made from a string

---
 lib/qdp_io.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 7b434db..5ed80d5 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -917,7 +917,7 @@ namespace QDP
   BinaryBufferReader::BinaryBufferReader() {checksum=0;}
 
   // Construct from a string
-  BinaryBufferReader::BinaryBufferReader(const std::string& s) {open(s);}
+  BinaryBufferReader::BinaryBufferReader(const std::string& s) {checksum=0; open(s);}
 
   BinaryBufferReader::~BinaryBufferReader() {}
 
@@ -1347,7 +1347,7 @@ namespace QDP
   BinaryBufferWriter::BinaryBufferWriter() {checksum=0;}
 
   // Construct from a string
-  BinaryBufferWriter::BinaryBufferWriter(const std::string& s) {open(s);}
+  BinaryBufferWriter::BinaryBufferWriter(const std::string& s) {checksum=0; open(s);}
 
   BinaryBufferWriter::~BinaryBufferWriter() {}
 
@@ -1540,7 +1540,7 @@ namespace QDP
   BinaryBufferReaderWriter::BinaryBufferReaderWriter() {checksum=0;}
 
   // Construct from a string
-  BinaryBufferReaderWriter::BinaryBufferReaderWriter(const std::string& s) {open(s);}
+  BinaryBufferReaderWriter::BinaryBufferReaderWriter(const std::string& s) {checksum=0; open(s);}
 
   BinaryBufferReaderWriter::~BinaryBufferReaderWriter() {}
 
-- 
2.43.0


From c485fc1d43cae43e38f12206a569ba2ecea666f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 21/33] fix: define the declared operator<< of BinaryWriter for
 char

---
 lib/qdp_io.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 5ed80d5..2deacfb 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -1282,6 +1282,12 @@ namespace QDP
     return bin;
   }
 
+  BinaryWriter& operator<<(BinaryWriter& bin, char output)
+  {
+    write(bin, output);
+    return bin;
+  }
+
   BinaryWriter& operator<<(BinaryWriter& bin, int output)
   {
     write(bin, output);
-- 
2.43.0


From 33f9f2023c48dcfaf2cd77dab834d5dbf110f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 22/33] fix: StopWatch counts nothing for an interval whose
 clock reading failed

calcDuration returned without setting its results when the timer was in the
error state, and stop() added the indeterminate values to the total.
---
 lib/qdp_stopwatch.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/qdp_stopwatch.cc b/lib/qdp_stopwatch.cc
index cd4a81d..165a0ff 100644
--- a/lib/qdp_stopwatch.cc
+++ b/lib/qdp_stopwatch.cc
@@ -22,11 +22,11 @@ namespace QDP {
   StopWatch::~StopWatch() {}
 	
   void StopWatch::calcDuration(long& secs, long& usecs){
+    secs=0;
+    usecs=0;
      if (!state){
         QDPIO::cerr << "Timer in error state"<<std::endl;
         return;}
-    secs=0;
-    usecs=0;
     if( startedP && stoppedP ) 
     { 
       if( t_end.tv_sec < t_start.tv_sec ) 
-- 
2.43.0


From 795f554f26b6637e3ff3922cfc6e4c11cdf12fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 23/33] fix: quotient with a single-precision denominator and a
 double-precision numerator was computed with a single-precision reciprocal

---
 include/qdp_reality.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/qdp_reality.h b/include/qdp_reality.h
index 377a481..c517e79 100644
--- a/include/qdp_reality.h
+++ b/include/qdp_reality.h
@@ -2001,7 +2001,10 @@ operator/(const RComplex<T1>& l, const RComplex<T2>& r)
 {
   typedef typename BinaryReturn<RComplex<T1>, RComplex<T2>, OpDivide>::Type_t  Ret_t;
 
-  T2 tmp = T2(1.0) / (r.real()*r.real() + r.imag()*r.imag());
+  // work in the precision of the result, not in the one of the denominator
+  typedef typename BinaryReturn<T1, T2, OpDivide>::Type_t  T;
+  T rre = r.real(), rim = r.imag();
+  T tmp = T(1.0) / (rre*rre + rim*rim);
 
   return Ret_t((l.real()*r.real() + l.imag()*r.imag()) * tmp,
 	       (l.imag()*r.real() - l.real()*r.imag()) * tmp);
@@ -2014,7 +2017,9 @@ operator/(const RComplex<T1>& l, const RScalar<T2>& r)
 {
   typedef typename BinaryReturn<RComplex<T1>, RScalar<T2>, OpDivide>::Type_t  Ret_t;
 
-  T2 tmp = T2(1.0) / r.elem();
+  // work in the precision of the result, not in the one of the denominator
+  typedef typename BinaryReturn<T1, T2, OpDivide>::Type_t  T;
+  T tmp = T(1.0) / T(r.elem());
 
   return Ret_t(l.real() * tmp, 
 	       l.imag() * tmp);
@@ -2027,7 +2032,10 @@ operator/(const RScalar<T1>& l, const RComplex<T2>& r)
 {
   typedef typename BinaryReturn<RScalar<T1>, RComplex<T2>, OpDivide>::Type_t  Ret_t;
 
-  T2 tmp = T2(1.0) / (r.real()*r.real() + r.imag()*r.imag());
+  // work in the precision of the result, not in the one of the denominator
+  typedef typename BinaryReturn<T1, T2, OpDivide>::Type_t  T;
+  T rre = r.real(), rim = r.imag();
+  T tmp = T(1.0) / (rre*rre + rim*rim);
 
   return Ret_t(l.elem() * r.real() * tmp,
 	       -l.elem() * r.imag() * tmp);
-- 
2.43.0


From 77dbfec1a85f2f4fa7e7a620772241ad01a779fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:25 +0000
Subject: [PATCH 24/33] fix: MapObjectDisk divided by zero whenever a file was
 opened

pos_type(max of uint64_t) is -1, so the divisor of convertToPrivate was 0.
A stream offset fits in 64 bits: store it as such, in the word that the file
format uses. The header also relied on others to include <array>.
---
 include/qdp_map_obj_disk.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 480da10..60669bb 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -8,7 +8,8 @@
 #define __qdp_map_obj_disk_h__
 
 #include "qdp_map_obj.h"
-#include <limits>
+#include <array>
+#include <cstdint>
 #include <unordered_map>
 
 namespace QDP
@@ -210,9 +211,9 @@ namespace QDP
   typename MapObjectDisk<K,V>::priv_pos_type_t
   MapObjectDisk<K,V>::convertToPrivate(const pos_type& input) const
   {
-    const pos_type max_uint64 = pos_type(std::numeric_limits<uint64_t>::max()) + pos_type(1u);
-    uint64_t less = uint64_t(input % max_uint64);
-    uint64_t more = input / max_uint64;
+    // A stream offset fits in 64 bits
+    uint64_t less = static_cast<uint64_t>(static_cast<off_type>(input));
+    uint64_t more = 0;
     // NOTE comment on priv_pos_type_t
     return (QDPUtil::big_endian() ? priv_pos_type_t{more, less} : priv_pos_type_t{less, more});
   }
@@ -222,12 +223,11 @@ namespace QDP
   typename MapObjectDisk<K,V>::pos_type 
   MapObjectDisk<K,V>::convertFromPrivate(const priv_pos_type_t& input) const
   {
-    const pos_type max_uint64 = pos_type(std::numeric_limits<uint64_t>::max()) + pos_type(1u);
     // NOTE comment on priv_pos_type_t
     if (!QDPUtil::big_endian())
-      return pos_type(input[0]) + pos_type(input[1]) * max_uint64;
+      return pos_type(static_cast<off_type>(input[0]));
     else
-      return pos_type(input[1]) + pos_type(input[0]) * max_uint64;
+      return pos_type(static_cast<off_type>(input[1]));
   }
 
 
-- 
2.43.0


From c88dde2e79a6e24563605e74ef91db2b038308a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:25 +0000
Subject: [PATCH 25/33] fix: MapObjectDisk::insert of a new key overwrote other
 records

The record was written where the last get or update had left the file
position, not at the end of the file.
---
 include/qdp_map_obj_disk.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 60669bb..cc5c8dd 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -583,6 +583,9 @@ namespace QDP
       else {
 	// Key does not exist
 
+	// New records go to the end of the file
+	streamer.seekEnd(0);
+
 	// Make note of current writer position
 	pos_type pos = streamer.currentPosition();
       
-- 
2.43.0


From bf1d27d1f1829a095e68b77336a19d78e410cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:25 +0000
Subject: [PATCH 26/33] fix: MapObjectDisk::close kept the keys of the file it
 closed

A map object opened again on another file answered with positions of the
first.
---
 include/qdp_map_obj_disk.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index cc5c8dd..9ff89fa 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -422,6 +422,8 @@ namespace QDP
       break;
     }
 
+    // The positions known belong to the file just closed
+    src_map.clear();
     state = INIT;
   }
   
-- 
2.43.0


From 57b99bc1508ff810fb41a71e2adbe14ab7ac1059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:01 +0000
Subject: [PATCH 27/33] fix: qdp_map_obj_memory.h did not compile without
 libxml2

---
 include/qdp_map_obj_memory.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qdp_map_obj_memory.h b/include/qdp_map_obj_memory.h
index cd92de5..6d7e017 100644
--- a/include/qdp_map_obj_memory.h
+++ b/include/qdp_map_obj_memory.h
@@ -251,6 +251,7 @@ namespace QDP
 
 
 
+#ifdef QDP_USE_LIBXML2
   //----------------------------------------------------------------------------
   //! Read a MapObject via xml
   template<typename K, typename V>
@@ -327,6 +328,7 @@ namespace QDP
 
     pop(xml);
   }
+#endif
 
 } // namespace QDP
 
-- 
2.43.0


From a63fe6ce8388d8d021f1dcf1b956d6848c9e3a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:01 +0000
Subject: [PATCH 28/33] fix: TextWriter ran the components of complex numbers,
 vectors and matrices together

---
 include/qdp_primmatrix.h  | 4 ++++
 include/qdp_primspinvec.h | 4 ++++
 include/qdp_primvector.h  | 4 ++++
 include/qdp_reality.h     | 2 +-
 4 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/qdp_primmatrix.h b/include/qdp_primmatrix.h
index 466f590..84a1331 100644
--- a/include/qdp_primmatrix.h
+++ b/include/qdp_primmatrix.h
@@ -182,7 +182,11 @@ TextWriter& operator<<(TextWriter& txt, const PMatrix<T,N,C>& d)
 {
   for(int j=0; j < N; ++j)
     for(int i=0; i < N; ++i)
+    {
+      if (i > 0 || j > 0)
+	txt << " ";
       txt << d.elem(i,j);
+    }
 
   return txt;
 }
diff --git a/include/qdp_primspinvec.h b/include/qdp_primspinvec.h
index fbf458c..fd54ffe 100644
--- a/include/qdp_primspinvec.h
+++ b/include/qdp_primspinvec.h
@@ -161,7 +161,11 @@ inline
 TextWriter& operator<<(TextWriter& txt, const PSpinVector<T,N>& d)
 {
   for(int i=0; i < N; ++i)
+  {
+    if (i > 0)
+      txt << " ";
     txt << d.elem(i);
+  }
 
   return txt;
 }
diff --git a/include/qdp_primvector.h b/include/qdp_primvector.h
index 4ba3251..07709c9 100644
--- a/include/qdp_primvector.h
+++ b/include/qdp_primvector.h
@@ -193,7 +193,11 @@ inline
 TextWriter& operator<<(TextWriter& txt, const PVector<T,N,C>& d)
 {
   for(int i=0; i < N; ++i)
+  {
+    if (i > 0)
+      txt << " ";
     txt << d.elem(i);
+  }
 
   return txt;
 }
diff --git a/include/qdp_reality.h b/include/qdp_reality.h
index c517e79..16201eb 100644
--- a/include/qdp_reality.h
+++ b/include/qdp_reality.h
@@ -420,7 +420,7 @@ template<class T>
 inline  
 TextWriter& operator<<(TextWriter& s, const RComplex<T>& d)
 {
-  return s << d.real() << d.imag();
+  return s << d.real() << " " << d.imag();
 }
 
 #ifdef QDP_USE_LIBXML2
-- 
2.43.0


From aca4cda33b32e8fd31fc2877083e154db2594211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:01 +0000
Subject: [PATCH 29/33] fix: TextWriter operator<< for char was declared but
 not defined

---
 lib/qdp_io.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 2deacfb..4dc9ac5 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -292,6 +292,12 @@ namespace QDP
     return txt;
   }
 
+  TextWriter& operator<<(TextWriter& txt, char output)
+  {
+    txt.write(output);
+    return txt;
+  }
+
   TextWriter& operator<<(TextWriter& txt, int output)
   {
     txt.write(output);
-- 
2.43.0


From c02762ba2be0b1256aa1acac850f28d486f831dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 30/33] fix: QDP_initialize read past the last argument when an
 option lacks its value

---
 lib/qdp_scalar_init.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/qdp_scalar_init.cc b/lib/qdp_scalar_init.cc
index ae96ea7..70d4210 100644
--- a/lib/qdp_scalar_init.cc
+++ b/lib/qdp_scalar_init.cc
@@ -106,14 +106,17 @@ void QDP_initialize(int *argc, char ***argv)
     if (strcmp((*argv)[i], "-p")==0) 
     {
       int lev;
-      sscanf((*argv)[++i], "%d", &lev);
-      setProgramProfileLevel(lev);
+      if (++i < *argc)
+      {
+	sscanf((*argv)[i], "%d", &lev);
+	setProgramProfileLevel(lev);
+      }
     }
 #endif
     if ( strcmp((*argv)[i],"-poolsize")==0)
       {
-	sscanf((*argv)[++i], "%f", &pool_size_in_gb);
-	
+	if (++i < *argc)
+	  sscanf((*argv)[i], "%f", &pool_size_in_gb);
       }
 
     if (i >= *argc) 
-- 
2.43.0


From 74f9231d10f69de706526f636c8520d99e24640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 31/33] fix: QDP_finalize released the reduction scratch space
 again when called twice

---
 lib/qdp_scalar_init.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/qdp_scalar_init.cc b/lib/qdp_scalar_init.cc
index 70d4210..f4bcabc 100644
--- a/lib/qdp_scalar_init.cc
+++ b/lib/qdp_scalar_init.cc
@@ -141,10 +141,12 @@ void QDP_finalize()
 
   if ( ThreadReductions::norm2_results != 0x0 ) { 
    delete [] ThreadReductions::norm2_results;
+   ThreadReductions::norm2_results = 0x0;
   }
 
   if ( ThreadReductions::innerProd_results != 0x0 ) { 
    delete [] ThreadReductions::innerProd_results;
+   ThreadReductions::innerProd_results = 0x0;
   }
 
    
-- 
2.43.0


From dcd2363a27f5c47d2c8ae5341f41ca2c0fbb2a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 32/33] fix: MapObjectDiskMultiple::fileExists answered yes for
 missing files before open

---
 include/qdp_map_obj_disk_multiple.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/qdp_map_obj_disk_multiple.h b/include/qdp_map_obj_disk_multiple.h
index 3dfe3aa..f2578c6 100644
--- a/include/qdp_map_obj_disk_multiple.h
+++ b/include/qdp_map_obj_disk_multiple.h
@@ -52,9 +52,10 @@ namespace QDP
     bool fileExists(const std::vector<std::string>& files) const
     {
       bool ret = true;
-      for(int i=0; i < dbs_.size(); ++i)
+      MapObjectDisk<K,V> db;
+      for(int i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i]->fileExists(files[i]);
+	ret = db.fileExists(files[i]);
 	if (! ret)
 	  return ret;
       }
-- 
2.43.0


From df24e82d50aaa842614be5b4c221ad212c079525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 33/33] fix: MapObjectDiskMultiple kept using closed maps, and
 never released maps that were not closed

---
 include/qdp_map_obj_disk_multiple.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/qdp_map_obj_disk_multiple.h b/include/qdp_map_obj_disk_multiple.h
index f2578c6..41f0512 100644
--- a/include/qdp_map_obj_disk_multiple.h
+++ b/include/qdp_map_obj_disk_multiple.h
@@ -23,7 +23,7 @@ namespace QDP
     MapObjectDiskMultiple() {}
 
     //! Finalizes object
-    ~MapObjectDiskMultiple() {}
+    ~MapObjectDiskMultiple() {close();}
 
     //! Set debugging level
     void setDebug(int level)
@@ -38,6 +38,7 @@ namespace QDP
     //! Open files
     void open(const std::vector<std::string>& files)
     {
+      close();
       dbs_.resize(files.size());
 
       for(int i=0; i < dbs_.size(); ++i)
@@ -72,6 +73,7 @@ namespace QDP
 	dbs_[i]->close();
 	delete dbs_[i];
       }
+      dbs_.clear();
     }
 
 
-- 
2.43.0

