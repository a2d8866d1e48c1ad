From 2bc218838fee9679cecf9fb02fc0ed42a5c58d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 01/14] fix: quotient of two monomials of one module position
 has no position

---
 ginv/monom.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ginv/monom.cpp b/ginv/monom.cpp
index 13392fd..33a8df4 100644
--- a/ginv/monom.cpp
+++ b/ginv/monom.cpp
@@ -275,6 +275,8 @@ void Monom::mult(Monom::Variable v, const Monom& a) {
   
 void Monom::div(const Monom& a) {
   assert(divisiable(a));
+  if (a.mPos >= 0)
+    mPos = -1;
   mDegree -=a.mDegree;
   Variable *i=mVariables;
   const Variable* const iend=mVariables+mSize;
-- 
2.43.0


From 457231389dcac9fbfb0aa11c55df38086db7ccbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 02/14] fix: monomials with different module positions are not
 equal

---
 ginv/monom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/monom.cpp b/ginv/monom.cpp
index 33a8df4..a5205e7 100644
--- a/ginv/monom.cpp
+++ b/ginv/monom.cpp
@@ -217,7 +217,7 @@ void Monom::permutation(const Monom &a, RandPermutation &p) {
 
 bool operator==(const Monom& a, const Monom& b) {
   assert(a.mSize == b.mSize);
-  bool r=a.mDegree == b.mDegree;
+  bool r=a.mPos == b.mPos && a.mDegree == b.mDegree;
   if (r) {
     const Monom::Variable *ia=a.mVariables,
                           *ib=b.mVariables;
-- 
2.43.0


From 2f270ea0db255f17c4b23c62593c1ea0d2b6e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 03/14] fix: comparing with a product takes the position of
 either factor

---
 ginv/poly.cpp | 24 ++++++++++++------------
 ginv/poly.h   |  4 ++++
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/ginv/poly.cpp b/ginv/poly.cpp
index a6b8dcd..184e032 100644
--- a/ginv/poly.cpp
+++ b/ginv/poly.cpp
@@ -45,22 +45,22 @@ int Poly::TOPalex(const Monom& a, const Monom& b) {
 
 int Poly::TOPlex2(const Monom& a, const Monom& b, const Monom& c) {
   int r=a.lex(b, c);
-  if (r == 0 && a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (r == 0 && a.pos() != pos(b, c))
+    r = (a.pos() > pos(b, c)) ? 1: -1;
   return r;
 }
 
 int Poly::TOPdeglex2(const Monom& a, const Monom& b, const Monom& c) {
   int r=a.deglex(b, c);
-  if (r == 0 && a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (r == 0 && a.pos() != pos(b, c))
+    r = (a.pos() > pos(b, c)) ? 1: -1;
   return r;
 }
 
 int Poly::TOPalex2(const Monom& a, const Monom& b, const Monom& c) {
   int r=a.alex(b, c);
-  if (r == 0 && a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (r == 0 && a.pos() != pos(b, c))
+    r = (a.pos() > pos(b, c)) ? 1: -1;
   return r;
 }
 
@@ -93,8 +93,8 @@ int Poly::POTalex(const Monom& a, const Monom& b) {
 
 int Poly::POTlex2(const Monom& a, const Monom& b, const Monom& c) {
   int r;
-  if (a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (a.pos() != pos(b, c))
+    r = (a.pos() > pos(b, c)) ? 1: -1;
   else
     r = a.lex(b, c);
   return r;
@@ -102,8 +102,8 @@ int Poly::POTlex2(const Monom& a, const Monom& b, const Monom& c) {
 
 int Poly::POTdeglex2(const Monom& a, const Monom& b, const Monom& c) {
   int r;
-  if (a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (a.pos() != pos(b, c))
+    r = (a.pos() > pos(b, c)) ? 1: -1;
   else
     r = a.deglex(b, c);
   return r;
@@ -111,8 +111,8 @@ int Poly::POTdeglex2(const Monom& a, const Monom& b, const Monom& c) {
 
 int Poly::POTalex2(const Monom& a, const Monom& b, const Monom& c) {
   int r;
-  if (a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (a.pos() != pos(b, c))
+    r = (a.pos() > pos(b, c)) ? 1: -1;
   else
     r = a.alex(b, c);
   return r;
diff --git a/ginv/poly.h b/ginv/poly.h
index 958414e..ac21439 100644
--- a/ginv/poly.h
+++ b/ginv/poly.h
@@ -38,6 +38,10 @@ public:
   };
 
 protected:
+  static int pos(const Monom& b, const Monom& c) {
+    return (b.pos() == -1) ? c.pos(): b.pos();
+  }
+
   static int TOPlex(const Monom& a, const Monom& b);
   static int TOPdeglex(const Monom& a, const Monom& b);
   static int TOPalex(const Monom& a, const Monom& b);
-- 
2.43.0


From 373dde7ff507c91f6ba9a7619a8a5d64dca241b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 04/14] fix: multiplying by a one-term polynomial releases
 every old term

---
 ginv/poly_int.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 6d0a199..6d198d9 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -295,7 +295,11 @@ void PolyInt::mult(const PolyInt &a) {
       }
     }
     mHead.swap(tmp);
-    mAllocator->destroy(tmp.head());
+    j = tmp.begin();
+    while(j) {
+      mAllocator->destroy(j.data());
+      j.del();
+    }
   }
   else {
     List<Term*> sum(mAllocator);
-- 
2.43.0


From 8bf86f06f4deb660fbb21737b569a7a340052ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 05/14] fix: the zeroth power of a polynomial is one

---
 ginv/poly_int.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 6d198d9..0d0e98a 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -362,8 +362,10 @@ void PolyInt::pow(int deg) {
   assert(deg >= 0);
   if (deg == 1)
     ;
-  else if (deg == 0)
+  else if (deg == 0) {
     clear();
+    mHead.push(new(mAllocator) Term(mAllocator, mSize, "1"));
+  }
   else {
     assert(deg > 1);
     PolyInt tmp(mAllocator, *this);
-- 
2.43.0


From 316aa318de42fd16c2711854499febf50b9a0344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 06/14] fix: integer constants are placed by the order and zero
 adds no term

---
 ginv/poly_int.cpp | 44 ++++----------------------------------------
 ginv/poly_int.h   |  6 +++++-
 2 files changed, 9 insertions(+), 41 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 0d0e98a..9036132 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -128,25 +128,8 @@ void PolyInt::minus() {
 
 void PolyInt::add(const char* hex) {
   assert(mHead);
-  List<Term*>::Iterator i(mHead.begin());
-  assert(i);
-  int size=i.data()->mMonom.size();
-  while(i && (i.data()->mMonom.degree() > 0 ||
-              i.data()->mMonom.pos() >= 0))
-    ++i;
-  if (!i)
-    i.insert(new(mAllocator) Term(mAllocator, size, hex));
-  else {
-    assert(i.data()->mMonom.degree() == 0 &&
-           i.data()->mMonom.pos() == -1);
-    Integer a(mAllocator, hex);
-    i.data()->mCoeff.add(a);
-    if (i.data()->mCoeff.isZero()) {
-      mAllocator->destroy(i.data());
-      i.del();
-    }
-  }
-  assert(assertValid());
+  Allocator allocator[1];
+  add(PolyInt(allocator, mOrder, mSize, hex));
 }
 
 void PolyInt::add(const PolyInt &a) {
@@ -184,27 +167,8 @@ void PolyInt::add(const PolyInt &a) {
 
 void PolyInt::sub(const char* hex) {
   assert(mHead);
-  List<Term*>::Iterator i(mHead.begin());
-  assert(i);
-  int size=i.data()->mMonom.size();
-  while(i && (i.data()->mMonom.degree() > 0 ||
-              i.data()->mMonom.pos() >= 0))
-    ++i;
-  if (!i) {
-    i.insert(new(mAllocator) Term(mAllocator, size, hex));
-    i.data()->mCoeff.set_neg();
-  }
-  else {
-    assert(i.data()->mMonom.degree() == 0 &&
-           i.data()->mMonom.pos() == -1);
-    Integer a(mAllocator, hex);
-    i.data()->mCoeff.sub(a);
-    if (i.data()->mCoeff.isZero()) {
-      mAllocator->destroy(i.data());
-      i.del();
-    }
-  }
-  assert(assertValid());
+  Allocator allocator[1];
+  sub(PolyInt(allocator, mOrder, mSize, hex));
 }
 
 void PolyInt::sub(const PolyInt &a) {
diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index f6f95fa..bcaa6cc 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -133,7 +133,11 @@ public:
       Poly(order, size),
       mAllocator(allocator),
       mHead(allocator) {
-    mHead.push(new(allocator) Term(allocator, size, integer));
+    Term* term=new(allocator) Term(allocator, size, integer);
+    if (term->mCoeff.isZero())
+      allocator->destroy(term);
+    else
+      mHead.push(term);
     assert(assertValid());
   }
   PolyInt(Allocator* allocator, int order, const Monom& a):
-- 
2.43.0


From 24b326d514ea8a70967b504271ddd385047c06d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 07/14] fix: copying a Janet tree keeps the branch of the last
 sibling

---
 ginv/janet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ginv/janet.cpp b/ginv/janet.cpp
index 73b1e62..ee660c2 100644
--- a/ginv/janet.cpp
+++ b/ginv/janet.cpp
@@ -97,6 +97,8 @@ Janet::Link Janet::build(Link j, Allocator* allocator) {
     i->mNextDeg = new(allocator) Node(j->mDeg, j->mWrap);
     i = i->mNextDeg;
   }
+  if (j->mNextVar)
+    i->mNextVar = build(j->mNextVar, allocator);
   return r;
 }
 
-- 
2.43.0


From 9b6fbd1e9734779b6345d08d8377e5edab144abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 08/14] fix: updating a basis element notices a changed
 position

---
 ginv/wrap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/wrap.cpp b/ginv/wrap.cpp
index 532d960..9f79080 100644
--- a/ginv/wrap.cpp
+++ b/ginv/wrap.cpp
@@ -23,7 +23,7 @@
 namespace GInv {
 
 void Wrap::update(const Monom& m) {
-  if (mLm.lex(m) != 0) {
+  if (mLm.pos() != m.pos() || mLm.lex(m) != 0) {
     mLm = m;
     mAnsector = m;
     for(int i=0; i < mLm.size(); i++) {
-- 
2.43.0


From d84d91b285da02ddef8d40f61b5e04f60459c598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 09/14] fix: assigning from an empty tree

---
 util/rbtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/rbtree.h b/util/rbtree.h
index cdf17d4..cac4272 100644
--- a/util/rbtree.h
+++ b/util/rbtree.h
@@ -522,7 +522,7 @@ public:
     assert(this != &a);
     if (mRoot)
       clear(mRoot, mAllocator);
-    mRoot = copy(a.mRoot, mAllocator, nullptr);
+    mRoot = (a.mRoot) ? copy(a.mRoot, mAllocator, nullptr): nullptr;
     mCount = a.mCount;
     assert(assertValid());
   }
-- 
2.43.0


From 6d64c03d82e606294c68189aac71b8134391f49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 10/14] fix: the move constructor of the tree compiles

---
 util/rbtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/rbtree.h b/util/rbtree.h
index cac4272..01cfa82 100644
--- a/util/rbtree.h
+++ b/util/rbtree.h
@@ -475,7 +475,7 @@ public:
   };
 
   inline RBTree(RBTree&& a):
-      mAllocator(a.allocator),
+      mAllocator(a.mAllocator),
       mRoot(a.mRoot),
       mCount(a.mCount) {
     a.mRoot = nullptr;
-- 
2.43.0


From ee7d66de833b56999734835702dd372e9f3cee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 11/14] fix: move assignment of a list compiles

---
 util/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/list.h b/util/list.h
index 60d015f..76ce2b4 100644
--- a/util/list.h
+++ b/util/list.h
@@ -211,7 +211,7 @@ public:
       ++i;
     }
   }
-  inline void operator=(const List&& a) {
+  inline void operator=(List&& a) {
     assert(this != &a);
 
     Iterator(this).clear();
-- 
2.43.0


From ecf6dc004200a7348eac1281cf5c0ffbe038a408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 12/14] fix: zero integers can be copied, parsed, multiplied
 and divided

---
 util/integer.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/util/integer.cpp b/util/integer.cpp
index fdf1f6f..2836399 100644
--- a/util/integer.cpp
+++ b/util/integer.cpp
@@ -27,7 +27,6 @@ char*  Integer::sBuffer=new char[Integer::sBufferSize];
 
 #ifdef GINV_UTIL_INTEGER_ALLOCATOR  
   void Integer::reallocate(int size) {
-    assert(size > 0);
     if (mMpz._mp_alloc < size) {
       if (mMpz._mp_alloc)
         mAllocator->dealloc(mMpz._mp_d, mMpz._mp_alloc);
-- 
2.43.0


From b3097dcd51964e91f4ae07ede0be62eaf987a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:17 +0000
Subject: [PATCH 13/14] fix: pushing a monomial twice does not use the
 discarded element

---
 ginv/mcompletion.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginv/mcompletion.cpp b/ginv/mcompletion.cpp
index 337881f..4868d19 100644
--- a/ginv/mcompletion.cpp
+++ b/ginv/mcompletion.cpp
@@ -35,8 +35,10 @@ void MCompletion::insert(Wrap *w) {
   }
   if (!j || mCmp(*j.data(), *w) > 0)
     j.insert(w);
-  else
+  else {
     mAllocator->destroy(w);
+    return;
+  }
   ++j;
   while(j) {
     for(int v=0; v < w->lm().size(); v++) {
-- 
2.43.0


From 666e88cdc9ac7083aa7aa20a3cb0b22c4d05718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 14/14] fix: the binomial polynomial clears its scratch
 rational

---
 util/hilbertpoly.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/hilbertpoly.cpp b/util/hilbertpoly.cpp
index f101d89..892dff6 100644
--- a/util/hilbertpoly.cpp
+++ b/util/hilbertpoly.cpp
@@ -108,6 +108,7 @@ void HilbertPoly::binomial(long int a, unsigned long b) {
 
     for(k = 0; k < b; k++)
       mpq_clear(tmp + k);
+    mpq_clear(&q);
 
     delete[] tmp;
   }
-- 
2.43.0

