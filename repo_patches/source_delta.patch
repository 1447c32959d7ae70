From 143dca1e57cf9b6328f899a1fc821179063c3746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 01/50] fix: refuse views with a negative offset or dimension,
 or that overflow

---
 lube/view.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lube/view.cpp b/lube/view.cpp
index 551b9f8..948fa0c 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -53,17 +53,23 @@ void View::setStrides(int iDim)
     if (iDim < 1)
         throw error("View::setStrides(): view must have dim > 0");
 
+    int offset = mData.ip[0];
+    if ((offset < 0) || (offset > mHeap->size()))
+        throw error("View::setStrides(): offset out of bounds");
+
     // The second of each pair is the stride
+    int space = mHeap->size() - offset;
     int p = 1;
     for (int i=iDim-1; i>=0; i--)
     {
+        int shape = mData.ip[i*2+1];
+        if (shape < 0)
+            throw error("View::setStrides(): negative dimension");
+        if ((shape > 0) && (p > space / shape))
+            throw error("View::setStrides(): Array too small for view");
         mData.ip[i*2+2] = p;
-        p *= mData.ip[i*2+1];
+        p *= shape;
     }
-
-    // the p that drops out should be the overall size
-    if (p+mData.ip[0] > mHeap->size())
-        throw error("View::setStrides(): Array too small for view");
 }
 
 
@@ -119,7 +125,9 @@ View::~View()
 
 int View::offset(int iOffset)
 {
-    if (iOffset + size() > mHeap->size())
+    if (iOffset < 0)
+        throw error("View::offset(): negative offset");
+    if (iOffset > mHeap->size() - size())
         throw error("View::offset(): offset too large");
     mData.ip[0] = iOffset;
     return iOffset;
-- 
2.43.0


From f500af10a6dbab93bc61362f5d29031746608194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 02/50] fix: free the allocation when the construction of a
 heap or view fails

---
 lube/heap.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index cd160cf..d190cdc 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -52,12 +52,13 @@ Heap::Heap()
  * Destructor
  *
  * The dtor should be called when the reference count hits zero.  So
- * the refcount should already be zero here.  The memory will have
- * been freed by the dealloc().
+ * the refcount should already be zero here.  It is also called if a
+ * constructor throws, so it's the place to free the memory.
  */
 Heap::~Heap()
 {
     assert(!mRefCount);
+    dealloc(mData);
 }
 
 
@@ -215,10 +216,7 @@ int Heap::detach()
     assert(mRefCount > 0);
     int count = --mRefCount;
     if (count == 0)
-    {
-        dealloc(mData);
         delete this;
-    }
     return count;
 }
 
-- 
2.43.0


From b0d096cae7ba43cb72746703a718f94f54fe6add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 03/50] fix: order arrays and strings lexicographically,
 consistently with equality

---
 lube/heap.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index d190cdc..a7b2855 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -7,6 +7,7 @@
  *   Phil Garner, July 2013
  */
 
+#include <algorithm>
 #include <cassert>
 #include <cstring>
 #include <stdexcept>
@@ -454,12 +455,22 @@ bool Heap::neq(IHeap* iHeap)
 
 bool Heap::lt(IHeap* iHeap)
 {
-    if ( (mType == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
-        return (std::strcmp(ptrchar(), iHeap->ptrchar()) < 0);
-    for (int i=0; i<std::min(size(), iHeap->size()); i++)
+    int common = std::min(size(), iHeap->size());
+    if ( (type() == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
+    {
+        int cmp = std::memcmp(ptrchar(), iHeap->ptrchar(), common);
+        if (cmp != 0)
+            return (cmp < 0);
+        return (size() < iHeap->size());
+    }
+    for (int i=0; i<common; i++)
+    {
         if (at(i) < iHeap->at(i))
             return true;
-    return false;
+        if (iHeap->at(i) < at(i))
+            return false;
+    }
+    return (size() < iHeap->size());
 }
 
 
-- 
2.43.0


From 56724adeaa3d4ed43dd992ebad7c7ae341a77caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 04/50] fix: compare undefined values instead of dereferencing
 a null heap

---
 lube/var.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 0d0764c..d0a6612 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -514,6 +514,8 @@ bool var::operator !=(var iVar) const
     switch (type())
     {
     case TYPE_ARRAY:
+        if (!heap() || !iVar.heap())
+            return (defined() != iVar.defined());
         return heap()->neq(iVar.heap());
     case TYPE_CHAR:
         return (get<char>() != iVar.get<char>());
@@ -551,6 +553,8 @@ bool var::operator <(var iVar) const
     switch (type())
     {
     case TYPE_ARRAY:
+        if (!heap() || !iVar.heap())
+            return (!defined() && iVar.defined());
         return heap()->lt(iVar.heap());
     case TYPE_CHAR:
         return (get<char>() < iVar.get<char>());
-- 
2.43.0


From 19bc60f10d5dd3ec1c7a8ead2d7e7073347d7419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 05/50] fix: views act on the elements of the underlying heap,
 not on the descriptor

---
 lube/heap.cpp |  2 +-
 lube/heap.h   |  8 ++++++++
 lube/view.cpp | 44 ++++++++++++++++++++++++++++++++++++++++----
 3 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index a7b2855..6b787ac 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -446,7 +446,7 @@ var& Heap::key(int iIndex)
 
 bool Heap::neq(IHeap* iHeap)
 {
-    for (int i=0; i<mSize; i++)
+    for (int i=0; i<size(); i++)
         if (at(i) != iHeap->at(i))
             return true;
     return false;
diff --git a/lube/heap.h b/lube/heap.h
index 7ecfd02..27b7168 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -224,6 +224,14 @@ namespace libube
         virtual int& shape(int iDim) const;
         virtual int& stride(int iDim) const;
         virtual bool copyable(IHeap* iHeap);
+        virtual void resize(int iSize);
+        virtual var at(int iIndex, bool iKey=false) const;
+        virtual var& key(int iIndex);
+        virtual var shift();
+        virtual void unshift(var iVar);
+        virtual var* deref(ind iIndex) {
+            return mHeap->deref(iIndex + mData.ip[0]);
+        };
         virtual int derefSize(ind iIndex) {
             return mHeap->derefSize(iIndex + mData.ip[0]);
         };
diff --git a/lube/view.cpp b/lube/view.cpp
index 948fa0c..636c6f6 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -27,7 +27,7 @@ View::View(const IHeap& iHeap, bool iAllocOnly) : Heap()
 {
     assert(iHeap.view());
     mType = TYPE_INT;
-    resize(iHeap.dim()*2+1);
+    Heap::resize(iHeap.dim()*2+1);
     mHeap = new Heap(*iHeap.view(), iAllocOnly);
     mHeap->attach();
     copy(reinterpret_cast<const Heap*>(&iHeap), mSize);
@@ -42,7 +42,7 @@ View::View(IHeap* iHeap) : Heap()
 
     // Initialise the offset with the old one if it was a view
     mType = TYPE_INT;
-    resize(1);
+    Heap::resize(1);
     mData.ip[0] = iHeap->view() ? iHeap->offset() : 0;
 }
 
@@ -77,7 +77,7 @@ View::View(IHeap* iHeap, const std::initializer_list<int> iList, int iOffset)
     : View(iHeap)
 {
     int dim = iList.size();
-    resize(dim*2+1);
+    Heap::resize(dim*2+1);
 
     // The first entry is the offset
     mData.ip[0] += iOffset;;
@@ -99,7 +99,7 @@ View::View(IHeap* iHeap, const std::initializer_list<int> iList, int iOffset)
 View::View(IHeap* iHeap, var iShape, int iOffset) : View(iHeap)
 {
     int dim = iShape.size();
-    resize(dim*2+1);
+    Heap::resize(dim*2+1);
 
     // The first entry is the offset
     mData.ip[0] += iOffset;;
@@ -173,3 +173,39 @@ bool View::copyable(IHeap* iHeap)
             return false;
     return true;
 }
+
+
+/* The elements of a view are those of the underlying heap */
+var View::at(int iIndex, bool iKey) const
+{
+    if ( (iIndex < 0) || (iIndex >= size()) )
+        throw std::range_error("View::at(): index out of bounds");
+    return mHeap->at(iIndex + mData.ip[0], iKey);
+}
+
+
+var& View::key(int iIndex)
+{
+    if ( (iIndex < 0) || (iIndex >= size()) )
+        throw std::range_error("View::key(): index out of bounds");
+    return mHeap->key(iIndex + mData.ip[0]);
+}
+
+
+/* The size of a view is fixed */
+void View::resize(int iSize)
+{
+    throw error("View::resize(): cannot resize a view");
+}
+
+
+var View::shift()
+{
+    throw error("View::shift(): cannot resize a view");
+}
+
+
+void View::unshift(var iVar)
+{
+    throw error("View::unshift(): cannot resize a view");
+}
-- 
2.43.0


From 902b5ed6dc1b0e24922bf1848ab994f2135919d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 06/50] fix: copy() of complex arrays and of element references

---
 lube/heap.cpp | 6 ++++++
 lube/var.cpp  | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 6b787ac..e4f4a73 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -296,6 +296,12 @@ void Heap::copy(const Heap* iHeap, int iSize)
     case TYPE_DOUBLE:
         memcpy(mData.dp, iHeap->mData.dp, mSize*sizeof(double));
         break;
+    case TYPE_CFLOAT:
+        memcpy(mData.cp, iHeap->mData.cp, mSize*sizeof(cfloat));
+        break;
+    case TYPE_CDOUBLE:
+        memcpy(mData.cp, iHeap->mData.cp, mSize*sizeof(cdouble));
+        break;
     case TYPE_VAR:
         for (int i=0; i<mSize; i++)
             mData.vp[i] = iHeap->mData.vp[i];
diff --git a/lube/var.cpp b/lube/var.cpp
index d0a6612..919e530 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -589,7 +589,11 @@ var var::copy(bool iAllocOnly) const
 {
     // Deref and return if there's no heap
     if (!heap())
-        return *this;
+    {
+        var v = *this;
+        v.dereference();
+        return v;
+    }
 
     // It's a heap
     var r;
-- 
2.43.0


From 2d42b7a1d7e9c4d76d5597c09272a7911ff2c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 07/50] fix: pop() returns a value rather than a reference, and
 refuses an empty array

---
 lube/var.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 919e530..5bd73d6 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1099,7 +1099,10 @@ var& var::push(var iVar)
 
 var var::pop()
 {
+    if (size() < 1)
+        throw std::range_error("pop(): empty array");
     var r = at(size()-1);
+    r.dereference();
     resize(size()-1);
     return r;
 }
-- 
2.43.0


From fe95d5dcd556f77d8090f9401196c9536d778e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 08/50] fix: insert() and remove() check negative indices;
 remove() moves keys too

---
 lube/var.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 5bd73d6..9acf965 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1114,6 +1114,8 @@ var var::pop()
  */
 var& var::insert(var iVar, int iIndex)
 {
+    if (iIndex < 0)
+        throw std::range_error("insert(): negative index");
     if (iIndex > size())
         throw std::range_error("insert(): index too large");
 
@@ -1153,13 +1155,18 @@ var& var::insert(var iVar, int iIndex)
 
 var var::remove(int iIndex)
 {
-    assert(iIndex >= 0);
+    if (iIndex < 0)
+        throw std::range_error("remove(): negative index");
     if (iIndex > size()-1)
         throw std::range_error("remove(): index too large");
 
     var r = at(iIndex).copy();
     for (int i=iIndex+1; i<size(); i++)
+    {
+        if (atype<pair>())
+            heap()->key(i-1) = heap()->key(i);
         at(i-1) = at(i);
+    }
     resize(size()-1);
     return r;
 }
-- 
2.43.0


From d44c3d714ddb9574ad25207583e91b8b900156cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 09/50] fix: unshift() converts to the element type and
 releases what it overwrites; shift() refuses an empty array

---
 lube/heap.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index e4f4a73..f554f0b 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -491,6 +491,8 @@ var Heap::shift()
     // var and pair use placement delete on the overwritten element (to delete
     // it) and placement new on the exposed one (to reset it, rather than
     // actually construct a new one).
+    if (mSize < 1)
+        throw std::range_error("Heap::shift(): empty array");
     var r;
     switch (mType)
     {
@@ -554,33 +556,35 @@ void Heap::unshift(var iVar)
     {
     case TYPE_CHAR:
         memmove(mData.cp+1, mData.cp, (mSize-1)*sizeof(char));
-        mData.cp[0] = iVar.get<char>();
+        mData.cp[0] = iVar.cast<char>();
         break;
     case TYPE_INT:
         memmove(mData.ip+1, mData.ip, (mSize-1)*sizeof(int));
-        mData.ip[0] = iVar.get<int>();
+        mData.ip[0] = iVar.cast<int>();
         break;
     case TYPE_LONG:
         memmove(mData.lp+1, mData.lp, (mSize-1)*sizeof(long));
-        mData.lp[0] = iVar.get<long>();
+        mData.lp[0] = iVar.cast<long>();
         break;
     case TYPE_FLOAT:
         memmove(mData.fp+1, mData.fp, (mSize-1)*sizeof(float));
-        mData.fp[0] = iVar.get<float>();
+        mData.fp[0] = iVar.cast<float>();
         break;
     case TYPE_DOUBLE:
         memmove(mData.dp+1, mData.dp, (mSize-1)*sizeof(double));
-        mData.dp[0] = iVar.get<double>();
+        mData.dp[0] = iVar.cast<double>();
         break;
     case TYPE_CFLOAT:
         memmove(mData.cfp+1, mData.cfp, (mSize-1)*sizeof(cfloat));
-        mData.cfp[0] = iVar.get<cfloat>();
+        mData.cfp[0] = iVar.cast<cfloat>();
         break;
     case TYPE_CDOUBLE:
         memmove(mData.cdp+1, mData.cdp, (mSize-1)*sizeof(cdouble));
-        mData.cdp[0] = iVar.get<cdouble>();
+        mData.cdp[0] = iVar.cast<cdouble>();
         break;
     case TYPE_VAR:
+        // The last element may still hold something from before a shrink
+        mData.vp[mSize-1].~var();
         memmove(mData.vp+1, mData.vp, (mSize-1)*sizeof(var));
         new (&mData.vp[0]) var();
         mData.vp[0] = iVar;
-- 
2.43.0


From e20272db59d1ae02c0f5c9dbbc267329cfc1a51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 10/50] fix: out of place strip() wrote through a stale pointer

---
 lube/string.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lube/string.cpp b/lube/string.cpp
index eb9353e..eb92185 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -251,6 +251,7 @@ void Strip::string(const var& iVar, var& oVar) const
     {
         oVar = "";
         oVar.resize(newSize);
+        op = oVar.ptr<char>();
         for (int i=0; i<newSize; i++)
             op[i] = ip[i+leading];
     }
-- 
2.43.0


From ef2f406a154890a05f06b68b6c47a7dad0956d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 11/50] fix: split() by an empty string did not terminate

---
 lube/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index eb92185..8e8ecaa 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -151,7 +151,7 @@ var var::split(const char* iStr, int iMax) const
     int strLen = std::strlen(iStr);
     const char* source = this->str();
     const char* p;
-    if (iMax != 1)
+    if (iMax != 1 && strLen > 0)
         while ( (p = std::strstr(source, iStr)) )
         {
             int len = p-source;
-- 
2.43.0


From 88478f7be102bd64f348de87027633accd0efe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 12/50] fix: byte 0xFF read through a varstream is not the end
 of file

---
 lube/stream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/stream.cpp b/lube/stream.cpp
index 3fc3b76..d27038a 100644
--- a/lube/stream.cpp
+++ b/lube/stream.cpp
@@ -56,7 +56,7 @@ int varbuf::uflow()
     //
     // Following stringstream, this doesn't destroy the string
     if (mInd < mVar.size())
-        return mVar[mInd++].get<char>();
+        return traits_type::to_int_type(mVar[mInd++].get<char>());
     return traits_type::eof();
 }
 
@@ -64,7 +64,7 @@ int varbuf::underflow()
 {
     // Called for reads that do not consume data if not uflow().
     if (mInd < mVar.size())
-        return mVar[mInd].get<char>();
+        return traits_type::to_int_type(mVar[mInd].get<char>());
     return traits_type::eof();
 }
 
@@ -73,7 +73,7 @@ int varbuf::pbackfail(int iInt)
     // istreams are supposed to allow putting back one character.  Putting back
     // will always fail since it's bufferless, in which case this is called.
     if (mInd > 0)
-        return mVar[--mInd].get<char>();
+        return traits_type::to_int_type(mVar[--mInd].get<char>());
     return traits_type::eof();
 }
 
-- 
2.43.0


From e7f8c8e6755896df28ec98bfc8e9220e5890958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 13/50] fix: varstream can seek to its end, and reports
 impossible positions

---
 lube/stream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lube/stream.cpp b/lube/stream.cpp
index d27038a..ae3a22e 100644
--- a/lube/stream.cpp
+++ b/lube/stream.cpp
@@ -82,8 +82,9 @@ std::streampos varbuf::seekpos(
 )
 {
     // Ignore mode for the moment
-    if (iPos < mVar.size())
-        mInd = iPos;
+    if (iPos < 0 || iPos > mVar.size())
+        return std::streampos(std::streamoff(-1));
+    mInd = iPos;
     return iPos;
 }
 
-- 
2.43.0


From dacf999b95d44abd6a77de993ec302abd6eeca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 14/50] fix: a flag given twice is not an error

---
 lube/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/config.cpp b/lube/config.cpp
index 18ac363..8382146 100644
--- a/lube/config.cpp
+++ b/lube/config.cpp
@@ -97,7 +97,7 @@ var Option::parse(int iArgc, char** iArgv)
         var o = (char)get();
         if (o == '?')
             usage(0);
-        var a = mOpts[o] ? arg() : 1;
+        var a = optarg ? arg() : 1;
         mOpts[o] = a;
     }
     return mOpts;
-- 
2.43.0


From c9565ce7b4a77b4af70a45db862f843f8e65abc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:18 +0000
Subject: [PATCH 15/50] fix: dot() of a tensor and a matrix used the leading
 instead of the trailing shape

---
 lube/math.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index ae82f76..b63e584 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -713,7 +713,7 @@ void Dot::vector(
     {
         // It's a two dimensional thing, so do it as a matrix multiplication
         // with blas::gemm()
-        if (iVar1.shape(1) != iVar2.shape(0))
+        if (iVar1.shape(-1) != iVar2.shape(0))
         {
             std::cout << iVar1.shape() << iVar2.shape() << std::endl;
             throw error("Dot::vector: Shapes not compatible");
@@ -722,7 +722,7 @@ void Dot::vector(
         {
         case TYPE_FLOAT:
             blas::gemm(
-                iVar1.shape(0), iVar2.shape(1), iVar1.shape(1),
+                iVar1.shape(-2), iVar2.shape(1), iVar1.shape(-1),
                 1.0f,
                 iVar1.ptr<float>(iOffset1),
                 iVar2.ptr<float>(iOffset2),
@@ -732,7 +732,7 @@ void Dot::vector(
             break;
         case TYPE_DOUBLE:
             blas::gemm(
-                iVar1.shape(0), iVar2.shape(1), iVar1.shape(1),
+                iVar1.shape(-2), iVar2.shape(1), iVar1.shape(-1),
                 1.0,
                 iVar1.ptr<double>(iOffset1),
                 iVar2.ptr<double>(iOffset2),
-- 
2.43.0


From 8630e248134fcc88fe3b86d7fa30b38883eb8d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:18 +0000
Subject: [PATCH 16/50] fix: out of place addition, subtraction and set of
 arrays changed the left operand

---
 lube/math.cpp | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index b63e584..ae0c00e 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -258,14 +258,14 @@ void Set::vector(
         blas::copy(
             size,
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
         blas::copy(
             size,
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            oVar.ptr<double>(iOffsetO)
         );
         break;
     default:
@@ -366,36 +366,51 @@ void Add::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    assert(iVar1.is(oVar));
     int size = iVar2.size();
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
+        if (!iVar1.is(oVar))
+            blas::copy(
+                size, iVar1.ptr<float>(iOffset1), oVar.ptr<float>(iOffsetO)
+            );
         blas::axpy(
             size, 1.0f,
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
+        if (!iVar1.is(oVar))
+            blas::copy(
+                size, iVar1.ptr<double>(iOffset1), oVar.ptr<double>(iOffsetO)
+            );
         blas::axpy(
             size, 1.0,
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            oVar.ptr<double>(iOffsetO)
         );
         break;
     case TYPE_CFLOAT:
+        if (!iVar1.is(oVar))
+            blas::copy(
+                size, iVar1.ptr<cfloat>(iOffset1), oVar.ptr<cfloat>(iOffsetO)
+            );
         blas::axpy(
             size, cfloat(1.0f,0.0f),
             iVar2.ptr<cfloat>(iOffset2),
-            iVar1.ptr<cfloat>(iOffset1)
+            oVar.ptr<cfloat>(iOffsetO)
         );
         break;
     case TYPE_CDOUBLE:
+        if (!iVar1.is(oVar))
+            blas::copy(
+                size, iVar1.ptr<cdouble>(iOffset1), oVar.ptr<cdouble>(iOffsetO)
+            );
         blas::axpy(
             size, cdouble(1.0,0.0),
             iVar2.ptr<cdouble>(iOffset2),
-            iVar1.ptr<cdouble>(iOffset1)
+            oVar.ptr<cdouble>(iOffsetO)
         );
         break;
     default:
@@ -445,22 +460,29 @@ void Sub::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    assert(iVar1.is(oVar));
     int size = iVar2.size();
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
+        if (!iVar1.is(oVar))
+            blas::copy(
+                size, iVar1.ptr<float>(iOffset1), oVar.ptr<float>(iOffsetO)
+            );
         blas::axpy(
             size, -1.0f,
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
+        if (!iVar1.is(oVar))
+            blas::copy(
+                size, iVar1.ptr<double>(iOffset1), oVar.ptr<double>(iOffsetO)
+            );
         blas::axpy(
             size, -1.0,
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            oVar.ptr<double>(iOffsetO)
         );
         break;
     default:
-- 
2.43.0


From 774ab5b65639a3a05be7c4b27b00a79f9bebe51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:18 +0000
Subject: [PATCH 17/50] fix: refuse array arithmetic on mismatched shapes
 instead of overrunning the arrays

---
 lube/func.cpp | 28 ++++++++++++++++++----------
 lube/func.h   |  1 +
 lube/math.cpp |  9 +++++++++
 lube/math.h   |  1 +
 4 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 0812928..0839fdb 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -278,27 +278,35 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
         throw error("var::broadcast: input dimension too large");
     if (iVar1.atype() != iVar2.atype())
         throw error("var::broadcast: types must match (for now)");
-#if 0
-    // Does not work for matrix multiplication
-    for (int i=1; i<dim2; i++)
-    {
-        // The dimensions should match
-        if (iVar1.shape(dim1-i) != iVar2.shape(dim2-i))
-            throw error("var::broadcast: dimension mismatch");
-    }
-#endif
+    if (!conformable(iVar1, iVar2))
+        throw error("var::broadcast: dimension mismatch");
 
     // If it didn't throw, then the arrays are broadcastable
     // In this case, loop over iVar1 with different offsets
     int dimO = oVar.dim();
     int step1 = dim1-dim2 > 0 ? iVar1.stride(dim1-dim2-1) : iVar1.size();
     int stepO = dimO-dim2 > 0 ? oVar.stride(dimO-dim2-1) : oVar.size();
-    int nOps = iVar1.size() / step1;
+    int nOps = step1 > 0 ? iVar1.size() / step1 : 0;
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);
 }
 
 
+/**
+ * Checks that iVar2 can be repeated over iVar1.  By default, the operation is
+ * elementwise, so the trailing dimensions must match.
+ */
+bool ArithmeticFunctor::conformable(var iVar1, var iVar2) const
+{
+    int dim1 = iVar1.dim();
+    int dim2 = iVar2.dim();
+    for (int i=1; i<=dim2; i++)
+        if (iVar1.shape(dim1-i) != iVar2.shape(dim2-i))
+            return false;
+    return true;
+}
+
+
 /**
  * The allocator for a N-ary functor
  */
diff --git a/lube/func.h b/lube/func.h
index f267c34..dce7f43 100644
--- a/lube/func.h
+++ b/lube/func.h
@@ -91,6 +91,7 @@ namespace libube
     {
     protected:
         virtual void broadcast(var iVar1, var iVar2, var& oVar) const;
+        virtual bool conformable(var iVar1, var iVar2) const;
     };
 
 
diff --git a/lube/math.cpp b/lube/math.cpp
index ae0c00e..75a8c72 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -678,6 +678,15 @@ var Dot::alloc(var iVar1, var iVar2) const
 }
 
 
+/**
+ * The inner dimensions must agree
+ */
+bool Dot::conformable(var iVar1, var iVar2) const
+{
+    return (iVar1.shape(-1) == iVar2.shape(0));
+}
+
+
 void Dot::vector(
     var iVar1, ind iOffset1,
     var iVar2, ind iOffset2,
diff --git a/lube/math.h b/lube/math.h
index 3be44ed..4026d5e 100644
--- a/lube/math.h
+++ b/lube/math.h
@@ -162,6 +162,7 @@ namespace libube
     {
     protected:
         var alloc(var iVar1, var iVar2) const;
+        bool conformable(var iVar1, var iVar2) const;
         void vector(
             var iVar1, ind iOffset1,
             var iVar2, ind iOffset2,
-- 
2.43.0


From f90e614cef9bb1980dbcf871a01722ad3a328118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 18/50] fix: JSON parser swallowed the delimiter following a
 number

---
 lube/json.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index e96ff29..70c8fa8 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -184,16 +184,16 @@ var toNumber(var iStr)
 
 var JSON::doRaw(std::istream& iStream)
 {
-    // Read up to a space or JSON delimiter
+    // Read up to, but not including, a space or JSON delimiter
     var val = "";
-    char c;
-    while (iStream.get(c))
+    while (iStream.peek() != istream::traits_type::eof())
     {
+        char c = iStream.peek();
         if (isspace(c))
             break;
         if (strchr(",[]{}", c))
             break;
-        val.push(c);
+        val.push(iStream.get());
     }
 
     // These values have special meanings
-- 
2.43.0


From 8b5230cb1d56e8faaa17813c3d551f8f263f993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 19/50] fix: JSON parser dropped whatever followed an integer
 prefix of a number

---
 lube/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 70c8fa8..8d53d4e 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -167,7 +167,7 @@ var toNumber(var iStr)
     varstream vs(iStr);
     long l;
     vs >> l;
-    if (!vs.fail())
+    if (!vs.fail() && (vs.peek() == istream::traits_type::eof()))
         return l;
 
     // Try for double
@@ -175,7 +175,7 @@ var toNumber(var iStr)
     vs.seekg(0);
     double d;
     vs >> d;
-    if (!vs.fail())
+    if (!vs.fail() && (vs.peek() == istream::traits_type::eof()))
         return d;
 
     // Failed
-- 
2.43.0


From 27637e95ff33e408af86a522e0d282bea3542088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 20/50] fix: JSON strings containing quotes, backslashes or
 control characters are escaped and read back

---
 lube/json.cpp | 124 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 121 insertions(+), 3 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 8d53d4e..80aac02 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -28,11 +28,14 @@ namespace libube
     private:
         void formatArray(std::ostream& iStream, var iVar, int iIndent);
         void formatView(std::ostream& iStream, var iVar, int iIndent);
+        void formatString(std::ostream& iStream, const char* iStr, int iSize);
         char peek(std::istream& iStream);
         var doValue(std::istream& iStream);
         var doObject(std::istream& iStream);
         var doArray(std::istream& iStream);
         var doString(std::istream& iStream);
+        int doHex(std::istream& iStream);
+        void doUnicode(std::istream& iStream, var& oStr);
         var doRaw(std::istream& iStream);
     };
 }
@@ -148,8 +151,28 @@ var JSON::doString(std::istream& iStream)
             switch (got)
             {
             case '\"':
+            case '\\':
+            case '/':
                 str.push(got);
                 break;
+            case 'b':
+                str.push('\b');
+                break;
+            case 'f':
+                str.push('\f');
+                break;
+            case 'n':
+                str.push('\n');
+                break;
+            case 'r':
+                str.push('\r');
+                break;
+            case 't':
+                str.push('\t');
+                break;
+            case 'u':
+                doUnicode(iStream, str);
+                break;
             default:
                 throw error("Unrecognised JSON string escape");
             }
@@ -161,6 +184,62 @@ var JSON::doString(std::istream& iStream)
     return nil;
 }
 
+/** Read the four hexadecimal digits of a unicode escape */
+int JSON::doHex(std::istream& iStream)
+{
+    int val = 0;
+    for (int i=0; i<4; i++)
+    {
+        char c = iStream.get();
+        val <<= 4;
+        if ((c >= '0') && (c <= '9'))
+            val += c - '0';
+        else if ((c >= 'a') && (c <= 'f'))
+            val += c - 'a' + 10;
+        else if ((c >= 'A') && (c <= 'F'))
+            val += c - 'A' + 10;
+        else
+            throw error("Bad JSON unicode escape");
+    }
+    return val;
+}
+
+/** Convert a unicode escape to UTF-8 */
+void JSON::doUnicode(std::istream& iStream, var& oStr)
+{
+    int code = doHex(iStream);
+    if ((code >= 0xD800) && (code < 0xDC00))
+    {
+        // It's the first of a surrogate pair
+        if ((iStream.get() != '\\') || (iStream.get() != 'u'))
+            throw error("Bad JSON surrogate pair");
+        int low = doHex(iStream);
+        if ((low < 0xDC00) || (low > 0xDFFF))
+            throw error("Bad JSON surrogate pair");
+        code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+    }
+    if (code < 0x80)
+        oStr.push((char)code);
+    else if (code < 0x800)
+    {
+        oStr.push((char)(0xC0 | (code >> 6)));
+        oStr.push((char)(0x80 | (code & 0x3F)));
+    }
+    else if (code < 0x10000)
+    {
+        oStr.push((char)(0xE0 | (code >> 12)));
+        oStr.push((char)(0x80 | ((code >> 6) & 0x3F)));
+        oStr.push((char)(0x80 | (code & 0x3F)));
+    }
+    else
+    {
+        oStr.push((char)(0xF0 | (code >> 18)));
+        oStr.push((char)(0x80 | ((code >> 12) & 0x3F)));
+        oStr.push((char)(0x80 | ((code >> 6) & 0x3F)));
+        oStr.push((char)(0x80 | (code & 0x3F)));
+    }
+}
+
 var toNumber(var iStr)
 {
     // Try for integer
@@ -290,14 +369,53 @@ std::ostream& libube::operator <<(std::ostream& iStream, var iVar)
     return iStream;
 }
 
+/** Quote a string, escaping the characters that JSON says must be escaped */
+void JSON::formatString(std::ostream& iStream, const char* iStr, int iSize)
+{
+    static const char hex[] = "0123456789abcdef";
+    iStream << '"';
+    for (int i=0; i<iSize; i++)
+    {
+        char c = iStr[i];
+        switch (c)
+        {
+        case '"':
+            iStream << "\\\"";
+            break;
+        case '\\':
+            iStream << "\\\\";
+            break;
+        case '\b':
+            iStream << "\\b";
+            break;
+        case '\f':
+            iStream << "\\f";
+            break;
+        case '\n':
+            iStream << "\\n";
+            break;
+        case '\r':
+            iStream << "\\r";
+            break;
+        case '\t':
+            iStream << "\\t";
+            break;
+        default:
+            if ((c >= 0) && (c < 0x20))
+                iStream << "\\u00" << hex[c >> 4] << hex[c & 0xF];
+            else
+                iStream << c;
+        }
+    }
+    iStream << '"';
+}
+
 void JSON::formatArray(std::ostream& iStream, var iVar, int iIndent)
 {
     switch (iVar.atype())
     {
     case TYPE_CHAR:
-        iStream << "\"";
-        iStream << iVar.ptr<char>();
-        iStream << "\"";
+        formatString(iStream, iVar.ptr<char>(), iVar.size());
         break;
     case TYPE_PAIR:
         // Might be empty
-- 
2.43.0


From a3ed97df1bc8d0557359928738cf8b02cb31a9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 21/50] fix: JSON arrays of one element, of no elements or of
 mixed types

---
 lube/json.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 80aac02..4d4d6df 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -33,6 +33,7 @@ namespace libube
         var doValue(std::istream& iStream);
         var doObject(std::istream& iStream);
         var doArray(std::istream& iStream);
+        var doDense(var iArr);
         var doString(std::istream& iStream);
         int doHex(std::istream& iStream);
         void doUnicode(std::istream& iStream, var& oStr);
@@ -112,7 +113,9 @@ var JSON::doObject(std::istream& iStream)
 
 var JSON::doArray(std::istream& iStream)
 {
+    // Elements may have different types, so start with an array of var
     var arr;
+    arr.resize(0);
     char got = iStream.get();
     if (got != '[')
         throw error("JSON array doesn't start with [");
@@ -122,7 +125,7 @@ var JSON::doArray(std::istream& iStream)
         {
         case ']':
             iStream.get();
-            return arr;
+            return doDense(arr);
             break;
         case ',':
             iStream.get();
@@ -134,6 +137,23 @@ var JSON::doArray(std::istream& iStream)
     return arr;
 }
 
+/** If the elements of an array have the same builtin type, make it dense */
+var JSON::doDense(var iArr)
+{
+    if (iArr.size() == 0)
+        return iArr;
+    ind type = iArr.at(0).type();
+    for (int i=0; i<iArr.size(); i++)
+        if ((type == TYPE_ARRAY) || (iArr.at(i).type() != type))
+            return iArr;
+    var r = iArr.at(0);
+    r.dereference();
+    r.array();
+    for (int i=1; i<iArr.size(); i++)
+        r.push(iArr.at(i));
+    return r;
+}
+
 var JSON::doString(std::istream& iStream)
 {
     var str = "";
-- 
2.43.0


From ecebe9207ac6e3eb2315e9df643c218dbe8d94eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 22/50] fix: at() refuses an index outside the array

---
 lube/var.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 9acf965..a34f053 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -819,11 +819,11 @@ var var::at(int iIndex) const
     v.dereference();
     if (!v)
         throw error("var::at(): uninitialised");
+    if ( (iIndex < 0) || (iIndex >= v.size()) )
+        throw error("var::at(): Index out of bounds");
     if (v.type() == TYPE_ARRAY)
         return v.reference(iIndex);
-    if (iIndex == 0)
-        return v;
-    throw error("var::at(): Index out of bounds");
+    return v;
 }
 
 
-- 
2.43.0


From 8408fa8becec7ee277bc5df9b235a1399c164d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 23/50] fix: shape() and stride() refuse dimensions that do not
 exist

stride(-1) returned the offset of the view.
---
 lube/var.cpp  |  8 ++++----
 lube/view.cpp | 10 ++++------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index a34f053..5709294 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1496,8 +1496,8 @@ int var::shape(int iDim) const
         iDim = dim() + iDim;
     if (view())
         return heap()->shape(iDim);
-    if (iDim > 0)
-        throw error("var::shape(): dimension too large");
+    if (iDim != 0)
+        throw error("var::shape(): no such dimension");
     return size();
 }
 
@@ -1506,8 +1506,8 @@ int var::stride(int iDim) const
 {
     if (view())
         return heap()->stride(iDim);
-    if (iDim > 0)
-        throw error("var::stride(): dimension too large");
+    if (iDim != 0)
+        throw error("var::stride(): no such dimension");
     return 1;
 }
 
diff --git a/lube/view.cpp b/lube/view.cpp
index 636c6f6..9a7bbdd 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -136,19 +136,17 @@ int View::offset(int iOffset)
 
 int& View::shape(int iDim) const
 {
-    int index = iDim*2 + 1;
-    if ((index < 0) || (index >= mSize))
+    if ((iDim < 0) || (iDim >= dim()))
         throw std::range_error("View::shape(): dimension out of bounds");
-    return mData.ip[index];
+    return mData.ip[iDim*2 + 1];
 }
 
 
 int& View::stride(int iDim) const
 {
-    int index = iDim*2 + 2;
-    if ((index < 0) || (index >= mSize))
+    if ((iDim < 0) || (iDim >= dim()))
         throw std::range_error("View::stride(): dimension out of bounds");
-    return mData.ip[index];
+    return mData.ip[iDim*2 + 2];
 }
 
 
-- 
2.43.0


From 6afb1c31fe5bc976aa0d2a901ea0410655a1781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 24/50] fix: looking up a key in a scalar no longer
 dereferences a null pointer

---
 lube/var.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 5709294..0c7fc3a 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -749,7 +749,7 @@ var var::operator [](var iVar)
         v.attach(new Heap(0, TYPE_PAIR));
     }
     else
-        if (v.heap() && !v.atype<pair>())
+        if (!v.heap() || !v.atype<pair>())
             // Fall back to normal array if the var can be cast to int
             return operator [](iVar.cast<int>());
     if (!iVar)
@@ -839,7 +839,7 @@ var var::at(var iVar) const
     if (!defined())
         throw error("var::at(): uninitialised");
     else
-        if (heap() && !atype<pair>())
+        if (!heap() || !atype<pair>())
             throw error("operator [var]: Not a map");
 
     int index = binary(iVar);
-- 
2.43.0


From 7189111d200fd66adecf449fdf0819940e56cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 25/50] fix: cast<cdouble> keeps a value that is already a
 cdouble, and refuses one that cannot be

---
 lube/var.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 0c7fc3a..13a4add 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -56,6 +56,8 @@ template<> cdouble libube::var::get<cdouble>() const
         var* v = mData.hp->deref(~mType);
         return v ? v->get<cdouble>() : *mData.hp->ptrcdouble(~mType);
     }
+    if (!heap())
+        throw error("var::get(): not a cdouble");
     return *mData.hp->ptrcdouble(0);
 }
 
@@ -657,7 +659,8 @@ void Cast<T>::scalar(const var& iVar, var& oVar) const
     // Return immediately if no cast is required
     const T t = 0;
     static var v = t;
-    if (v.type() == iVar.type())
+    if ( (iVar.defined() && (v.atype() == iVar.type())) ||
+         (v.heap() && iVar.heap() && (v.atype() == iVar.atype())) )
     {
         if (!iVar.is(oVar))
             oVar = iVar;
-- 
2.43.0


From 2e6e649e7343777017ab4bbde5bcd9afe4d2dadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 26/50] fix: comparing cdouble arrays no longer recurses for
 ever

---
 lube/heap.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index f554f0b..d26dd00 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -452,6 +452,14 @@ var& Heap::key(int iIndex)
 
 bool Heap::neq(IHeap* iHeap)
 {
+    // A cdouble element is itself an array of one, so compare the values
+    if ( (type() == TYPE_CDOUBLE) && (iHeap->type() == TYPE_CDOUBLE) )
+    {
+        for (int i=0; i<size(); i++)
+            if (*ptrcdouble(i) != *iHeap->ptrcdouble(i))
+                return true;
+        return false;
+    }
     for (int i=0; i<size(); i++)
         if (at(i) != iHeap->at(i))
             return true;
@@ -469,6 +477,17 @@ bool Heap::lt(IHeap* iHeap)
             return (cmp < 0);
         return (size() < iHeap->size());
     }
+    if ( (type() == TYPE_CDOUBLE) && (iHeap->type() == TYPE_CDOUBLE) )
+    {
+        for (int i=0; i<common; i++)
+        {
+            double a = std::abs(*ptrcdouble(i));
+            double b = std::abs(*iHeap->ptrcdouble(i));
+            if (a != b)
+                return (a < b);
+        }
+        return (size() < iHeap->size());
+    }
     for (int i=0; i<common; i++)
     {
         if (at(i) < iHeap->at(i))
-- 
2.43.0


From 4f29f84fa415e3e00766c4ef5878e3a838fac563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:00 +0000
Subject: [PATCH 27/50] fix: views with a dimension of zero are not refused
 (amends the bounds check of views)

---
 lube/view.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lube/view.cpp b/lube/view.cpp
index 9a7bbdd..8897f4c 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -8,6 +8,7 @@
  */
 
 #include <cassert>
+#include <limits>
 
 #include "lube/var.h"
 #include "lube/heap.h"
@@ -58,18 +59,19 @@ void View::setStrides(int iDim)
         throw error("View::setStrides(): offset out of bounds");
 
     // The second of each pair is the stride
-    int space = mHeap->size() - offset;
-    int p = 1;
+    long p = 1;
     for (int i=iDim-1; i>=0; i--)
     {
         int shape = mData.ip[i*2+1];
         if (shape < 0)
             throw error("View::setStrides(): negative dimension");
-        if ((shape > 0) && (p > space / shape))
+        if (p > std::numeric_limits<int>::max())
             throw error("View::setStrides(): Array too small for view");
         mData.ip[i*2+2] = p;
         p *= shape;
     }
+    if (p > mHeap->size() - offset)
+        throw error("View::setStrides(): Array too small for view");
 }
 
 
-- 
2.43.0


From 3e10a86c8d95ffab1b479706e27d7f230ef49bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:57 +0000
Subject: [PATCH 28/50] fix: casting an array of one value, and arithmetic on
 complex arrays, no longer read the wrong storage

---
 lube/math.cpp | 19 +++++++++++++++++--
 lube/var.cpp  | 32 ++++++++++++++++++++++++--------
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 75a8c72..0643247 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -68,7 +68,8 @@ using namespace libube;
 
 
 /**
- * Report var type, but treating TYPE_CDOUBLE as a type rather than an array.
+ * Report var type, but treating TYPE_CDOUBLE as a type rather than an array
+ * when there is just one value.
  *
  * This avoids an infinite loop where arrays are always broadcasted, and
  * broadcasting calls the original unary operator again.
@@ -76,7 +77,7 @@ using namespace libube;
 ind type(var iVar)
 {
     ind type = iVar.type();
-    if (iVar.atype<cdouble>())
+    if (iVar.atype<cdouble>() && (iVar.size() == 1))
         type = TYPE_CDOUBLE;
     return type;
 }
@@ -268,6 +269,20 @@ void Set::vector(
             oVar.ptr<double>(iOffsetO)
         );
         break;
+    case TYPE_CFLOAT:
+        blas::copy(
+            size,
+            iVar2.ptr<cfloat>(iOffset2),
+            oVar.ptr<cfloat>(iOffsetO)
+        );
+        break;
+    case TYPE_CDOUBLE:
+        blas::copy(
+            size,
+            iVar2.ptr<cdouble>(iOffset2),
+            oVar.ptr<cdouble>(iOffsetO)
+        );
+        break;
     default:
         throw error("Set::vector: Unknown type");
     }
diff --git a/lube/var.cpp b/lube/var.cpp
index 13a4add..cafbca8 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -56,7 +56,7 @@ template<> cdouble libube::var::get<cdouble>() const
         var* v = mData.hp->deref(~mType);
         return v ? v->get<cdouble>() : *mData.hp->ptrcdouble(~mType);
     }
-    if (!heap())
+    if (!heap() || (size() != 1))
         throw error("var::get(): not a cdouble");
     return *mData.hp->ptrcdouble(0);
 }
@@ -128,26 +128,42 @@ namespace libube
     }
 
 
+    /**
+     * Casts a var to a value.  An array of one value counts as that value; any
+     * other array (aside from a string, which gets parsed) is refused.
+     */
+    template <class T>
+    static T castScalar(const var& iVar, const Cast<T>& iCast)
+    {
+        if (iVar.heap() && !iVar.atype<char>())
+        {
+            if (iVar.size() != 1)
+                throw error("var::cast(): Not a single value");
+            return castScalar<T>(iVar.at(0), iCast);
+        }
+        return iCast(iVar).template get<T>();
+    }
+
     template<> char var::cast<char>() const {
-        return castChar(*this).get<char>();
+        return castScalar<char>(*this, castChar);
     }
     template<> int var::cast<int>() const {
-        return castInt(*this).get<int>();
+        return castScalar<int>(*this, castInt);
     }
     template<> long var::cast<long>() const {
-        return castLong(*this).get<long>();
+        return castScalar<long>(*this, castLong);
     }
     template<> float var::cast<float>() const {
-        return castFloat(*this).get<float>();
+        return castScalar<float>(*this, castFloat);
     }
     template<> double var::cast<double>() const {
-        return castDouble(*this).get<double>();
+        return castScalar<double>(*this, castDouble);
     }
     template<> cfloat var::cast<cfloat>() const {
-        return castCFloat(*this).get<cfloat>();
+        return castScalar<cfloat>(*this, castCFloat);
     }
     template<> cdouble var::cast<cdouble>() const {
-        return castCDouble(*this).get<cdouble>();
+        return castScalar<cdouble>(*this, castCDouble);
     }
 }
 
-- 
2.43.0


From 1b8163b119221d68bab696c7542a8b5605fe3ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 29/50] fix: remove() refuses a view before moving any element

---
 lube/var.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index cafbca8..816fbd6 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1178,6 +1178,8 @@ var var::remove(int iIndex)
         throw std::range_error("remove(): negative index");
     if (iIndex > size()-1)
         throw std::range_error("remove(): index too large");
+    if (view())
+        throw error("remove(): cannot resize a view");
 
     var r = at(iIndex).copy();
     for (int i=iIndex+1; i<size(); i++)
-- 
2.43.0


From 5edd5247a454b643760f20404a761564262f90e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 30/50] fix: casting an undefined value is refused

---
 lube/var.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 816fbd6..503a006 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -135,6 +135,8 @@ namespace libube
     template <class T>
     static T castScalar(const var& iVar, const Cast<T>& iCast)
     {
+        if (!iVar.defined())
+            throw error("var::cast(): Undefined");
         if (iVar.heap() && !iVar.atype<char>())
         {
             if (iVar.size() != 1)
-- 
2.43.0


From ad6ef6e6dbcc12aaa30374d9103048097fb6364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:54 +0000
Subject: [PATCH 31/50] fix: assigning an element of a generic array to itself

---
 lube/var.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 503a006..6e5827f 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -347,6 +347,8 @@ var& var::operator =(var iVar)
     {
         // Not a reference.  Record whether the old value was a heap
         // allocation. If so, detach it after attaching the new value.
+        // Dereference first; a reference could be to this very var.
+        iVar.dereference();
         IHeap* tmp = ((mType == TYPE_ARRAY) && mData.hp) ? mData.hp : 0;
         mData = iVar.mData;
         mType = iVar.mType;
-- 
2.43.0


From a8a4cb89fe503eafd2f5cc550dadd42ae1b676b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:49 +0000
Subject: [PATCH 32/50] fix: a cast functor applied to a single cdouble yields
 the type that was asked for

---
 lube/var.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 6e5827f..664ae09 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -698,8 +698,11 @@ void Cast<T>::scalar(const var& iVar, var& oVar) const
         return;
     }
 
-    // Everything else gets cast<>ed
-    switch (iVar.type())
+    // Everything else gets cast<>ed; a single cdouble is stored as an array
+    ind type = iVar.type();
+    if (iVar.heap() && iVar.atype<cdouble>() && (iVar.size() == 1))
+        type = TYPE_CDOUBLE;
+    switch (type)
     {
     case TYPE_ARRAY:
         broadcast(iVar, oVar);
-- 
2.43.0


From 860c5e5e5a7a543d917c3608b6e37c5f06addd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:25 +0000
Subject: [PATCH 33/50] fix: swap of arrays with leading dimensions overran
 them; refuse shapes that differ

---
 lube/math.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 0643247..558191f 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -303,7 +303,9 @@ void Swap::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    int size = iVar1.size();
+    if ( (iVar1.size() != iVar2.size()) || (iVar1.shape(-1) != iVar2.shape(-1)) )
+        throw error("Swap::vector: Shapes not compatible");
+    int size = iVar1.shape(-1);
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
-- 
2.43.0


From caf9489b27bbc30d34c3dc1dcf3f25915dcaba26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:25 +0000
Subject: [PATCH 34/50] fix: polynomials of cdouble roots were allocated as
 cfloat

---
 lube/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 558191f..aac57de 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1189,7 +1189,7 @@ var Poly::alloc(var iVar) const
         r = view(s, cfloat(0.0f, 0.0f));
         break;
     case TYPE_CDOUBLE:
-        r = view(s, cfloat(0.0, 0.0));
+        r = view(s, cdouble(0.0, 0.0));
         break;
     }
     return r;
-- 
2.43.0


From a27a0d77f9a1503116836bad15b85df57ce06571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:45 +0000
Subject: [PATCH 35/50] fix: broadcasting over an empty array divided by zero

---
 lube/func.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 0839fdb..ba9c496 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -125,7 +125,7 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
     int dimO = oVar.dim();
     int stepI = dimI-mDim > 0 ? iVar.stride(dimI-mDim-1) : iVar.size();
     int stepO = dimO-mDim > 0 ? oVar.stride(dimO-mDim-1) : oVar.size();
-    int nOps = iVar.size() / stepI;
+    int nOps = stepI > 0 ? iVar.size() / stepI : 0;
     for (int i=0; i<nOps; i++)
         vector(iVar, stepI*i, oVar, stepO*i);
 }
@@ -242,7 +242,7 @@ void BinaryFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int step1 = cdim > 0 ? iVar1.stride(cdim-1) : 0;
     int step2 = cdim > 0 ? iVar2.stride(cdim-1) : 0;
     int stepO = cdim > 0 ?  oVar.stride(cdim-1) : 0;
-    int nOps = cdim > 0 ? iVar1.size() / step1 : 1;
+    int nOps = cdim > 0 ? (step1 > 0 ? iVar1.size() / step1 : 0) : 1;
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, step2*i, oVar, stepO*i);
 }
@@ -399,7 +399,7 @@ void NaryFunctor::broadcast(var iVar, var& oVar) const
 
     // Assume that the common dimension is to be broadcast over.
     int stepO = cdim > 0 ?  oVar.stride(cdim-1) : 0;
-    int nOps = cdim > 0 ? oVar.size() / stepO : 1;
+    int nOps = cdim > 0 ? (stepO > 0 ? oVar.size() / stepO : 0) : 1;
     for (int i=0; i<nOps; i++)
     {
         var iv;
-- 
2.43.0


From 230e9028159ae2209437e61df958443f8d2de9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:45 +0000
Subject: [PATCH 36/50] fix: dot() with a vector of one element did not
 terminate

---
 lube/func.cpp | 4 ++--
 lube/math.h   | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index ba9c496..5814f0f 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -259,9 +259,9 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int dim1 = iVar1.dim();
     int dim2 = iVar2.dim();
 
-    // Case 1: iVar2 has size 1
+    // Case 1: iVar2 has size 1 (and the operation is dimensionless)
     // Call back to the unary operator
-    if ((dim2 == 1) && (iVar2.size() == 1))
+    if ((mDim == 0) && (dim2 == 1) && (iVar2.size() == 1))
     {
         // This could be parallel!
         for (int i=0; i<iVar1.size(); i++)
diff --git a/lube/math.h b/lube/math.h
index 4026d5e..01ca627 100644
--- a/lube/math.h
+++ b/lube/math.h
@@ -160,6 +160,8 @@ namespace libube
      */
     class Dot : public ArithmeticFunctor
     {
+    public:
+        Dot() { mDim = 1; };
     protected:
         var alloc(var iVar1, var iVar2) const;
         bool conformable(var iVar1, var iVar2) const;
-- 
2.43.0


From 32c3be226a9bcd1011074e24c324c9f1cf4e8e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:43 +0000
Subject: [PATCH 37/50] fix: JSON objects and arrays with missing or misplaced
 separators are refused

---
 lube/json.cpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 4d4d6df..10abf10 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -85,27 +85,34 @@ var JSON::doObject(std::istream& iStream)
     char got = iStream.get();
     if (got != '{')
         throw error("JSON object doesn't start with {");
+    if (peek(iStream) == '}')
+    {
+        iStream.get();
+        return obj;
+    }
     while (iStream)
     {
+        // "key" : value
+        if (peek(iStream) != '"')
+            throw error("JSON object: expected a key");
+        key = doString(iStream);
+        if (peek(iStream) != ':')
+            throw error("JSON object: expected :");
+        iStream.get();
+        obj[key] = doValue(iStream);
+
+        // ...followed by a separator or terminator
         switch (peek(iStream))
         {
         case '}':
             iStream.get();
             return obj;
             break;
-        case '"':
-            key = doString(iStream);
-            break;
-        case ':':
-            iStream.get();
-            obj[key] = doValue(iStream);
-            break;
         case ',':
             iStream.get();
-            key = nil;
             break;
         default:
-            throw error("Unknown character");
+            throw error("JSON object: expected , or }");
         }
     }
     return obj;
@@ -119,8 +126,14 @@ var JSON::doArray(std::istream& iStream)
     char got = iStream.get();
     if (got != '[')
         throw error("JSON array doesn't start with [");
+    if (peek(iStream) == ']')
+    {
+        iStream.get();
+        return arr;
+    }
     while (iStream)
     {
+        arr.push(doValue(iStream));
         switch (peek(iStream))
         {
         case ']':
@@ -131,7 +144,7 @@ var JSON::doArray(std::istream& iStream)
             iStream.get();
             break;
         default:
-            arr.push(doValue(iStream));
+            throw error("JSON array: expected , or ]");
         }
     }
     return arr;
-- 
2.43.0


From 7ea4ff21faac1d4ada3fcc7e84cf8b87f1e12334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:27 +0000
Subject: [PATCH 38/50] fix: strip() of a string of nothing but space

---
 lube/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index 8e8ecaa..a9b5d5e 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -236,7 +236,7 @@ void Strip::string(const var& iVar, var& oVar) const
     while ((leading < is) && (isspace(ip[leading])))
         leading++;
     int trailing = 0;
-    while ((trailing < is) && (isspace(ip[is-trailing-1])))
+    while ((trailing < is-leading) && (isspace(ip[is-trailing-1])))
         trailing++;
 
     int newSize = is - leading - trailing;
-- 
2.43.0


From 2e39e6c294a1581c780f1f2933dc780f6ace2302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:27 +0000
Subject: [PATCH 39/50] fix: len() of an undefined value is its size, 0

---
 lube/utf8.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/utf8.cpp b/lube/utf8.cpp
index 78c4172..a4fd3da 100644
--- a/lube/utf8.cpp
+++ b/lube/utf8.cpp
@@ -75,7 +75,7 @@ int utf8len(const char* iStr)
  */
 ind var::len()
 {
-    if (!atype<char>())
+    if (!defined() || !atype<char>())
         return size();
     int clen = 0;
     int code = 0;
-- 
2.43.0


From 6c47663835c7cec2fa8a6dbde17b008d29e73953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:54 +0000
Subject: [PATCH 40/50] fix: getline() of an unterminated last line appended
 the end of file as a character

---
 lube/string.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index a9b5d5e..976935d 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -123,7 +123,9 @@ var& var::getline(std::istream& iStream)
     char* str = ptr<char>();
     while (!iStream.eof())
     {
-        char c = iStream.get();
+        int c = iStream.get();
+        if (c == std::istream::traits_type::eof())
+            break;      // The last line has no newline
         if (c == '\n') // Unix specific?  ...no, I think c++ will change it to
                        // whatever is appropriate
             break;
-- 
2.43.0


From 2b573953f2ff2829d22962081eb3365af851edc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 41/50] fix: reading a nested array through a view writes into
 the view

Dereferencing a reference to an element of a view of arrays assigned
the element to the view; if the element had the shape of the view then
its contents were broadcast into it.
---
 lube/var.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 664ae09..ae1f0b0 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -11,6 +11,7 @@
 #include <cstring>
 #include <cstdarg>
 #include <stdexcept>
+#include <utility>
 #ifdef HAVE_BACKTRACE
 # include <execinfo.h>
 #endif
@@ -1322,10 +1323,12 @@ var& var::dereference()
     var& r = varderef();
     if (&r != this)
     {
-        // Set mType to not-a-reference, then let operator=() do the
-        // housekeeping
-        mType = 0;
-        *this = r;
+        // Exchange this reference for a copy of the element.  operator=()
+        // would not do: it writes into whatever array it finds here if that
+        // happens to be a copyable view.
+        var tmp = r;
+        std::swap(mData, tmp.mData);
+        std::swap(mType, tmp.mType);
         return r;
     }
     else
-- 
2.43.0


From 3a6d2fe4dfe8ded14df6f0ce0e43319498db715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:46 +0000
Subject: [PATCH 42/50] fix: insert and remove on an array of views write into
 the views

---
 lube/var.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index ae1f0b0..554c509 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1149,9 +1149,14 @@ var& var::insert(var iVar, int iIndex)
     if (heap() && atype<var>())
     {
         // Implies array; insert a single var
+        // Clear first; an element that is a view would be written into
         resize(size()+1);
         for (int i=size()-1; i>iIndex; i--)
+        {
+            at(i).clear();
             at(i) = at(i-1);
+        }
+        at(iIndex).clear();
         at(iIndex) = iVar;
     }
     else if (heap() && atype<pair>())
@@ -1160,9 +1165,12 @@ var& var::insert(var iVar, int iIndex)
         resize(size()+1);
         for (int i=size()-1; i>iIndex; i--)
         {
+            heap()->key(i).clear();
             heap()->key(i) = heap()->key(i-1);
+            at(i).clear();
             at(i) = at(i-1);
         }
+        heap()->key(iIndex).clear();
         heap()->key(iIndex) = iVar;
         at(iIndex).clear();
     }
@@ -1193,7 +1201,12 @@ var var::remove(int iIndex)
     for (int i=iIndex+1; i<size(); i++)
     {
         if (atype<pair>())
+        {
+            heap()->key(i-1).clear();
             heap()->key(i-1) = heap()->key(i);
+        }
+        if (atype<pair>() || atype<var>())
+            at(i-1).clear(); // If it's a view, don't write into it
         at(i-1) = at(i);
     }
     resize(size()-1);
-- 
2.43.0


From b15cf29f6680f845528f8167109fea2b3961f23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:05 +0000
Subject: [PATCH 43/50] fix: insert and unshift of an element of the array
 itself

---
 lube/var.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 554c509..1e29e7b 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1146,6 +1146,8 @@ var& var::insert(var iVar, int iIndex)
     if (iIndex > size())
         throw std::range_error("insert(): index too large");
 
+    // It could be a reference to an element that is about to move
+    iVar.dereference();
     if (heap() && atype<var>())
     {
         // Implies array; insert a single var
@@ -1176,12 +1178,14 @@ var& var::insert(var iVar, int iIndex)
     }
     else
     {
-        // It's a fundamental type, insert the whole array
-        resize(size()+iVar.size());
-        for (int i=size()-1; i>iIndex+iVar.size()-1; i--)
-            at(i) = at(i-iVar.size());
-        for (int i=0; i<iVar.size(); i++)
-            at(iIndex+i) = iVar[i];
+        // It's a fundamental type, insert the whole array.  Copy it in case
+        // it's (a view of) the array that is about to change.
+        var v = iVar.copy();
+        resize(size()+v.size());
+        for (int i=size()-1; i>iIndex+v.size()-1; i--)
+            at(i) = at(i-v.size());
+        for (int i=0; i<v.size(); i++)
+            at(iIndex+i) = v[i];
     }
 
     return *this;
@@ -1231,6 +1235,8 @@ var& var::unshift(var iVar)
         return *this;
     }
 
+    // It could be a reference to an element that is about to move
+    iVar.dereference();
     if (!heap())
         array();
     heap()->unshift(iVar);
-- 
2.43.0


From f292f6087a42c3989a8198273f780081987a8491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:01 +0000
Subject: [PATCH 44/50] fix: shrinking a generic array left its dropped
 elements in place

---
 lube/heap.cpp | 15 +++++++++++++++
 lube/var.cpp  |  3 ++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index d26dd00..e7c15b3 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -225,6 +225,21 @@ void Heap::resize(int iSize)
 {
     // It is possible to resize to zero; the capacity stays the same
     assert(mCapacity >= 0);
+
+    // Elements that are no longer in use should not persist.  Doing it in
+    // place (like shift()) is necessary as an element could be a view.
+    if (mType == TYPE_VAR)
+        for (int i=iSize; i<mSize; i++)
+        {
+            mData.vp[i].~var();
+            new (&mData.vp[i]) var();
+        }
+    else if (mType == TYPE_PAIR)
+        for (int i=iSize; i<mSize; i++)
+        {
+            mData.pp[i].~pair();
+            new (&mData.pp[i]) pair();
+        }
     mSize = iSize;
 
     // strings have an extra '\0'
diff --git a/lube/var.cpp b/lube/var.cpp
index 1e29e7b..1b2ce1a 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1294,7 +1294,8 @@ var& var::presize(int iSize)
 {
     // There is no doubt a more efficient way
     int s = size();
-    resize(iSize);
+    if (iSize > s)
+        resize(iSize);
     resize(s);
     return *this;
 }
-- 
2.43.0


From 7f32e88e71a7562c77d82ac048a107c2b0e92b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:56 +0000
Subject: [PATCH 45/50] fix: at(key) of a reference to a map looked in the
 map's container

---
 lube/var.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 1b2ce1a..2b9c412 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -872,7 +872,11 @@ var var::at(var iVar) const
     int index = binary(iVar);
     if ( (index >= size()) || (heap()->key(index) != iVar) )
         return nil;
-    return reference(index);
+
+    // This could itself be a reference to the map
+    var v = *this;
+    v.dereference();
+    return v.reference(index);
 }
 
 
-- 
2.43.0


From 1563a59bf23ffbf8dc9f56d878cf0b0f45d9d153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:07 +0000
Subject: [PATCH 46/50] fix: range() and irange() from an element changed that
 element

---
 lube/var.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 2b9c412..a70ea73 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -895,6 +895,8 @@ var var::key(int iIndex) const
  */
 var libube::irange(var iLo, var iHi, var iStep)
 {
+    // It could be a reference to an element, which is not to change
+    iLo.dereference();
     var r;
     while (iLo < iHi)
     {
@@ -921,6 +923,8 @@ var libube::irange(var iHi)
  */
 var libube::range(var iLo, var iHi, var iStep)
 {
+    // It could be a reference to an element, which is not to change
+    iLo.dereference();
     var r;
     while (iLo <= iHi)
     {
-- 
2.43.0


From 13885c6a34c4a144cc5f14c28821694db39dce92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:38 +0000
Subject: [PATCH 47/50] fix: operations with a supplied output wrote beyond the
 end of one that is too small

add(a,b,o), mul(a,b,o), dot(a,b,o) and the like did not look at the space in o;
nor did swap() for an operand with fewer repetitions, transpose(a,o) and
concatenate(l,o).
---
 lube/func.cpp            | 21 +++++++++++++++++++++
 lube/func.h              |  1 +
 lube/math.cpp            | 17 +++++++++++++++++
 lube/math.h              |  1 +
 lube/transpose-adhoc.cpp |  2 ++
 lube/transpose-mkl.cpp   |  2 ++
 6 files changed, 44 insertions(+)

diff --git a/lube/func.cpp b/lube/func.cpp
index 5814f0f..4fa4b98 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -126,6 +126,8 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
     int stepI = dimI-mDim > 0 ? iVar.stride(dimI-mDim-1) : iVar.size();
     int stepO = dimO-mDim > 0 ? oVar.stride(dimO-mDim-1) : oVar.size();
     int nOps = stepI > 0 ? iVar.size() / stepI : 0;
+    if ((nOps > 0) && (stepO*(nOps-1) >= oVar.size()))
+        throw error("var::broadcast: output too small");
     for (int i=0; i<nOps; i++)
         vector(iVar, stepI*i, oVar, stepO*i);
 }
@@ -243,6 +245,8 @@ void BinaryFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int step2 = cdim > 0 ? iVar2.stride(cdim-1) : 0;
     int stepO = cdim > 0 ?  oVar.stride(cdim-1) : 0;
     int nOps = cdim > 0 ? (step1 > 0 ? iVar1.size() / step1 : 0) : 1;
+    if ((nOps > 0) && (step2*(nOps-1) >= iVar2.size()))
+        throw error("var::broadcast: dimension mismatch");
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, step2*i, oVar, stepO*i);
 }
@@ -287,6 +291,13 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int step1 = dim1-dim2 > 0 ? iVar1.stride(dim1-dim2-1) : iVar1.size();
     int stepO = dimO-dim2 > 0 ? oVar.stride(dimO-dim2-1) : oVar.size();
     int nOps = step1 > 0 ? iVar1.size() / step1 : 0;
+
+    // A supplied output must have space for the result of each operation
+    int res = resultSize(iVar1, iVar2);
+    if ((nOps > 1) && (stepO < res))
+        throw error("var::broadcast: output dimension mismatch");
+    if ((nOps > 0) && (stepO*(nOps-1) + res > oVar.size()))
+        throw error("var::broadcast: output too small");
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);
 }
@@ -307,6 +318,16 @@ bool ArithmeticFunctor::conformable(var iVar1, var iVar2) const
 }
 
 
+/**
+ * The number of values that one operation writes.  By default, the operation
+ * is elementwise.
+ */
+int ArithmeticFunctor::resultSize(var iVar1, var iVar2) const
+{
+    return iVar2.size();
+}
+
+
 /**
  * The allocator for a N-ary functor
  */
diff --git a/lube/func.h b/lube/func.h
index dce7f43..6aa3af4 100644
--- a/lube/func.h
+++ b/lube/func.h
@@ -92,6 +92,7 @@ namespace libube
     protected:
         virtual void broadcast(var iVar1, var iVar2, var& oVar) const;
         virtual bool conformable(var iVar1, var iVar2) const;
+        virtual int resultSize(var iVar1, var iVar2) const;
     };
 
 
diff --git a/lube/math.cpp b/lube/math.cpp
index aac57de..162b63b 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -556,6 +556,8 @@ void Mul::scale(var iVar1, var iVar2, var& oVar, int iOffset) const
     else
     {
         // Copy data before scaling
+        if (oVar.size() < size)
+            throw error("Mul::scale: output too small");
         switch(iVar1.atype())
         {
         case TYPE_FLOAT:
@@ -704,6 +706,15 @@ bool Dot::conformable(var iVar1, var iVar2) const
 }
 
 
+/**
+ * One value for a dot product, a matrix for a matrix multiplication
+ */
+int Dot::resultSize(var iVar1, var iVar2) const
+{
+    return iVar2.dim() > 1 ? iVar1.shape(-2) * iVar2.shape(1) : 1;
+}
+
+
 void Dot::vector(
     var iVar1, ind iOffset1,
     var iVar2, ind iOffset2,
@@ -1297,6 +1308,12 @@ var Concatenate::alloc(var iVar) const
 
 void Concatenate::vector(var iVar, var& oVar) const
 {
+    int total = 0;
+    for (int i=0; i<iVar.size(); i++)
+        total += iVar[i].shape(-1);
+    if (total > oVar.size())
+        throw error("Concatenate::vector: output too small");
+
     int sum = 0;
     switch(oVar.atype())
     {
diff --git a/lube/math.h b/lube/math.h
index 01ca627..ee7de19 100644
--- a/lube/math.h
+++ b/lube/math.h
@@ -165,6 +165,7 @@ namespace libube
     protected:
         var alloc(var iVar1, var iVar2) const;
         bool conformable(var iVar1, var iVar2) const;
+        int resultSize(var iVar1, var iVar2) const;
         void vector(
             var iVar1, ind iOffset1,
             var iVar2, ind iOffset2,
diff --git a/lube/transpose-adhoc.cpp b/lube/transpose-adhoc.cpp
index 34e36db..c4e368f 100644
--- a/lube/transpose-adhoc.cpp
+++ b/lube/transpose-adhoc.cpp
@@ -47,6 +47,8 @@ void Transpose::scalar(const var& iVar, var& oVar) const
     // operation.
 
     // Transpose always broadcasts to array()
+    if (oVar.size() != iVar.size())
+        throw error("Transpose::scalar: output size mismatch");
     broadcast(iVar, oVar);
 
     // Transpose view if necessary
diff --git a/lube/transpose-mkl.cpp b/lube/transpose-mkl.cpp
index f2f43b3..f634abe 100644
--- a/lube/transpose-mkl.cpp
+++ b/lube/transpose-mkl.cpp
@@ -48,6 +48,8 @@ void Transpose::scalar(const var& iVar, var& oVar) const
     // operation.
 
     // Transpose always broadcasts to array()
+    if (oVar.size() != iVar.size())
+        throw error("Transpose::scalar: output size mismatch");
     broadcast(iVar, oVar);
 
     // Transpose view if necessary
-- 
2.43.0


From 03661a8052c0eca06df0145bd6a64d29cc5ea5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:48 +0000
Subject: [PATCH 48/50] fix: formatting an array of double complex numbers
 printed their addresses

---
 lube/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 10abf10..2c45231 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -497,7 +497,7 @@ void JSON::formatArray(std::ostream& iStream, var iVar, int iIndent)
             {
                 for (int j=0; j<iIndent+2; j++)
                     iStream << " ";
-                iStream << iVar.ptr<cdouble>(i);
+                iStream << *iVar.ptr<cdouble>(i);
                 if (i < iVar.size()-1)
                     iStream << ",";
                 iStream << "\n";
-- 
2.43.0


From 004107f22a039f8466804c4ad811f98cf4e27a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:00 +0000
Subject: [PATCH 49/50] fix: order characters in any array as bytes, as strings
 do

---
 lube/heap.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index e7c15b3..9637a92 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -482,6 +482,18 @@ bool Heap::neq(IHeap* iHeap)
 }
 
 
+/**
+ * Order of two array elements.  Characters are ordered as bytes, as they are
+ * when the arrays are strings.
+ */
+static bool before(const var& iA, const var& iB)
+{
+    if ( (iA.type() == TYPE_CHAR) && (iB.type() == TYPE_CHAR) )
+        return ((unsigned char)iA.get<char>() < (unsigned char)iB.get<char>());
+    return (iA < iB);
+}
+
+
 bool Heap::lt(IHeap* iHeap)
 {
     int common = std::min(size(), iHeap->size());
@@ -505,9 +517,9 @@ bool Heap::lt(IHeap* iHeap)
     }
     for (int i=0; i<common; i++)
     {
-        if (at(i) < iHeap->at(i))
+        if (before(at(i), iHeap->at(i)))
             return true;
-        if (iHeap->at(i) < at(i))
+        if (before(iHeap->at(i), at(i)))
             return false;
     }
     return (size() < iHeap->size());
-- 
2.43.0


From d3a62400408653d08b605188abc1591e691df967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:26 +0000
Subject: [PATCH 50/50] fix: a map that refuses an element at its front is left
 as it was

The refusal came after the map had been made longer, leaving an entry
with no key at its end
---
 lube/heap.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 9637a92..7eeec64 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -597,6 +597,9 @@ var Heap::shift()
  */
 void Heap::unshift(var iVar)
 {
+    // Refuse before an entry with no key has been added
+    if (mType == TYPE_PAIR)
+        throw error("Heap::unshift(): Can't unshift a pair");
     resize(mSize+1);
     switch (mType)
     {
@@ -635,8 +638,6 @@ void Heap::unshift(var iVar)
         new (&mData.vp[0]) var();
         mData.vp[0] = iVar;
         break;
-    case TYPE_PAIR:
-        throw error("Heap::unshift(): Can't unshift a pair");
     default:
         throw error("Heap::unshift(): Unknown type");
     }
-- 
2.43.0

