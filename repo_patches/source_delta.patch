From f3f0fd7cf4e8b5d8067d6c5de47274e96198b2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 01/33] fix: keep spilled registers coherent in the x86_64
 Montgomery code generator

---
 src/asmbuilder.js | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/asmbuilder.js b/src/asmbuilder.js
index 097bbee..8cfda33 100644
--- a/src/asmbuilder.js
+++ b/src/asmbuilder.js
@@ -162,16 +162,24 @@ module.exports = class RegManager {
             }
         }
 
+        // Load first the argument that must be in a register, because this can evict another one.
+        if ((dLoad>=0)&&(typeof args[dLoad] !== "string")&&(args[dLoad] >= this.nUsedRegs)) {
+            this._loadWr(args[dLoad], inst[dLoad].indexOf("I")>=0);
+        }
+
         const params = [];
         for (let i=0; i < inst.length; i++) {
             if (typeof args[i] === "string") {
                 params.push(args[i]);
-            } else if (args[i]<this.nUsedRegs) {
-                params.push(this.regRefs[args[i]]);
-            } else if ((dLoad>=0)&&(args[i] == args[dLoad])) {
-                params.push(this._loadWr(args[i], inst[i].indexOf("I")>=0).reg);
+                continue;
+            }
+
+            // While a reference is assigned to a working register, the value in the stack can be outdated.
+            const idx = this._indexOfWrAssignment(args[i]);
+            if (idx>=0) {
+                params.push(this.wrAssignments[idx].reg);
                 if (inst[i].indexOf("O")>=0) {
-                    this.wrAssignments[this._indexOfWrAssignment(args[i])].modified = true;
+                    this.wrAssignments[idx].modified = true;
                 }
             } else {
                 params.push(this.regRefs[args[i]]);
-- 
2.43.0


From 66d755eb0120c7ac4a88db0bf74dd44df1cb908e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 02/33] fix: propagate the borrow in the x86_64 toInt of
 negative numbers

---
 src/copy.asm.ejs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/copy.asm.ejs b/src/copy.asm.ejs
index 989e927..276a7c1 100644
--- a/src/copy.asm.ejs
+++ b/src/copy.asm.ejs
@@ -183,12 +183,13 @@ u64toLong_adjust_neg:
 <%=name%>_longNeg:
         mov     rax, [rdi + 8]
         sub     rax, [q]
-        jnc     <%=name%>_longErr
 <% for (let i=1; i<n64; i++) { %>
         mov     rcx, [rdi + <%= i*8+8 %>]
         sbb     rcx, [q + <%= i*8 %>]
-        jnc     <%=name%>_longErr
+        inc     rcx                           ; must be all ones. inc keeps the carry
+        jnz     <%=name%>_longErr
 <% } %>
+        jnc     <%=name%>_longErr
         mov     rcx, rax
         sar     rcx, 31
         add     rcx, 1
-- 
2.43.0


From 6029f73ed2a54b330fb16ef5df187b08d09a5433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 03/33] fix: rawSwap of x86_64 stored an unrelated register

---
 src/copy.asm.ejs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/copy.asm.ejs b/src/copy.asm.ejs
index 276a7c1..78f3102 100644
--- a/src/copy.asm.ejs
+++ b/src/copy.asm.ejs
@@ -69,7 +69,7 @@
         mov     rax, [rsi + <%= i*8 %>]
         mov     rcx, [rdi + <%= i*8 %>]
         mov     [rdi + <%= i*8 %>], rax
-        mov     [rsi + <%= i*8 %>], rbx
+        mov     [rsi + <%= i*8 %>], rcx
 <% } %>
         ret
 
-- 
2.43.0


From 3372adecb9c4589a5c933d23a36171a9d497937c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 04/33] fix: toRprBE writes the whole representation, also for
 zero and larger buffers

---
 src/fr.cpp.ejs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fr.cpp.ejs b/src/fr.cpp.ejs
index 9d3f1e2..66825ea 100644
--- a/src/fr.cpp.ejs
+++ b/src/fr.cpp.ejs
@@ -1,6 +1,7 @@
 #include "<%=name.toLowerCase()+".hpp"%>"
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <gmp.h>
 #include <assert.h>
 #include <string>
@@ -300,7 +301,10 @@ int Raw<%=name%>::toRprBE(const Element &element, uint8_t *data, int bytes)
 
     toMpz(r, element);
    
-    mpz_export(data, NULL, 1, bytes, 1, 0, r);
+    // zero exports nothing, and the representation is always N64*8 bytes long
+    memset(data, 0, <%=name%>_N64 * 8);
+    mpz_export(data, NULL, 1, <%=name%>_N64 * 8, 1, 0, r);
+    mpz_clear(r);
 
     return <%=name%>_N64 * 8;
 }
@@ -315,6 +319,7 @@ int Raw<%=name%>::fromRprBE(Element &element, const uint8_t *data, int bytes)
 
     mpz_import(r, <%=name%>_N64 * 8, 0, 1, 0, 0, data);
     fromMpz(element, r);
+    mpz_clear(r);
     return <%=name%>_N64 * 8;
 }
 
-- 
2.43.0


From a3c5d8e7ee4eea9aaaff224d6eef2be979c42524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 05/33] fix: toMontgomery of a short element keeps its short
 value (generic implementation)

---
 src/fr_generic.cpp.ejs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fr_generic.cpp.ejs b/src/fr_generic.cpp.ejs
index 2cd5a6d..0925778 100644
--- a/src/fr_generic.cpp.ejs
+++ b/src/fr_generic.cpp.ejs
@@ -313,12 +313,14 @@ void <%=name%>_toMontgomery(P<%=name%>Element r, P<%=name%>Element a)
        <%=name%>_rawMMul1(r->longVal, <%=name%>_R2.longVal, -a_shortVal);
        <%=name%>_rawNeg(r->longVal, r->longVal);
 
+       r->shortVal = a->shortVal;
        r->type = <%=name%>_SHORTMONTGOMERY;
     }
     else
     {
         <%=name%>_rawMMul1(r->longVal, <%=name%>_R2.longVal, a->shortVal);
 
+        r->shortVal = a->shortVal;
         r->type = <%=name%>_SHORTMONTGOMERY;
     }
 }
-- 
2.43.0


From 77e42c615b761d167e39a3883d444a3da60116c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 06/33] fix: set the worker stop flag under the mutex so that
 its wake-up cannot be lost

---
 c/misc.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/misc.hpp b/c/misc.hpp
index 2fbe004..0386e5e 100644
--- a/c/misc.hpp
+++ b/c/misc.hpp
@@ -75,7 +75,10 @@ public:
     {}
 
     ~ThreadWorker() {
-        stop = true;
+        {
+            std::lock_guard<std::mutex> lock(mutex);
+            stop = true;
+        }
         occupied.notify_one();
 
         thread.join();
-- 
2.43.0


From 5c717ac1b0446bf761429bb49e15841ecad147a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 07/33] fix: parallelFor over an empty range runs nothing
 instead of aborting

---
 c/misc.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/misc.hpp b/c/misc.hpp
index 0386e5e..057d61e 100644
--- a/c/misc.hpp
+++ b/c/misc.hpp
@@ -149,6 +149,10 @@ public:
     template<typename Func>
     void parallelFor(int begin, int end, Func&& func) {
 
+        if (end <= begin) {
+            return;
+        }
+
         const int  elementCount = end - begin;
         const auto jobs = divideWork(elementCount, nThreads);
         int jobBegin = begin;
-- 
2.43.0


From cb8edeba8bad54ac5b5c1405141800ab93a52024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 08/33] fix: squaring in a quadratic extension whose
 non-residue is not -1

---
 c/f2field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/f2field.cpp b/c/f2field.cpp
index 3a250ed..7a4aff0 100644
--- a/c/f2field.cpp
+++ b/c/f2field.cpp
@@ -162,7 +162,7 @@ void F2Field<BaseField>::square(Element &r, Element &e1) {
 
         F.add(tmp1, e1.a, e1.b);
         mulByNr(tmp2, e1.b);
-        F.add(tmp2, e1.a, tmp1);
+        F.add(tmp2, e1.a, tmp2);
 
         F.mul(tmp1, tmp1, tmp2);
 
-- 
2.43.0


From d24d0db2bb8f668d6a0c6d5aee1577cde3fcc196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 09/33] fix: power in the degree-12 field may overwrite its
 base

---
 c/f12field.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/f12field.cpp b/c/f12field.cpp
index ee5e231..e9f0e20 100644
--- a/c/f12field.cpp
+++ b/c/f12field.cpp
@@ -95,6 +95,8 @@ void F12Field<BaseField>::mulScalar(Element &r, Element &a, typename BaseField::
 template <typename BaseField>
 void F12Field<BaseField>::exp(Element &r, Element &a, uint8_t* scalar, unsigned int scalarSize) {
 
+    Element base;
+    copy(base, a); // base and result can be the same
     copy(r, one());
     Element t;
 
@@ -102,7 +104,7 @@ void F12Field<BaseField>::exp(Element &r, Element &a, uint8_t* scalar, unsigned
         square(t, r);
 
         if ( BIT_IS_SET(scalar, i) ) {
-            mul(r, t, a);
+            mul(r, t, base);
         } else {
             copy(r, t);
         }
-- 
2.43.0


From ab3e5a397a50ada1df66a49a48dda007d732a325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:53 +0000
Subject: [PATCH 10/33] fix: negating the affine point at infinity into a
 projective point gives infinity

---
 c/curve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/curve.cpp b/c/curve.cpp
index af35ebf..37b88ce 100644
--- a/c/curve.cpp
+++ b/c/curve.cpp
@@ -589,6 +589,10 @@ void Curve<BaseField>::neg(Point &r, Point &a) {
 
 template <typename BaseField>
 void Curve<BaseField>::neg(Point &r, PointAffine &a) {
+    if (isZero(a)) {
+        copy(r, zero());
+        return;
+    }
     F.copy(r.x, a.x);
     F.neg(r.y, a.y);
     F.copy(r.zz, F.one());
-- 
2.43.0


From 041437894f1ca2869b4522a6b0328b527b5b9355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:53 +0000
Subject: [PATCH 11/33] fix: a finite point never equals infinity, whatever
 coordinates infinity is stored with

---
 c/curve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/curve.cpp b/c/curve.cpp
index 37b88ce..4ea18f9 100644
--- a/c/curve.cpp
+++ b/c/curve.cpp
@@ -462,6 +462,7 @@ bool Curve<BaseField>::eq(Point &p1, Point &p2) {
 #endif // COUNT_OPS
 
     if (isZero(p1)) return  isZero(p2);
+    if (isZero(p2)) return false;
 
     // U1 = X1*ZZ2
     typename BaseField::Element U1;
-- 
2.43.0


From 7632adfbaf4625f1a1c329bc2ee163ca6e9541c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 12/33] fix: splitting a text of a single component returns it
 instead of recursing without end

---
 c/splitparstr.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/c/splitparstr.cpp b/c/splitparstr.cpp
index c081969..aab72c6 100644
--- a/c/splitparstr.cpp
+++ b/c/splitparstr.cpp
@@ -45,8 +45,7 @@ std::vector<std::string> splitParStr(std::string s) {
     }
     removePars(accS);
     res.push_back(accS);
-    if (res.size()==1) {
-        removePars(res[0]);
+    if ((res.size()==1)&&(res[0] != s)) {
         return splitParStr(res[0]);
     } else {
         return res;
-- 
2.43.0


From 05545eae783af805933cb34cd13eaa7f1f5864ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 13/33] fix: look at the whole text between the outer
 parentheses when removing redundant ones

---
 c/splitparstr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/splitparstr.cpp b/c/splitparstr.cpp
index aab72c6..86a8743 100644
--- a/c/splitparstr.cpp
+++ b/c/splitparstr.cpp
@@ -7,7 +7,7 @@ void removePars(std::string &s) {
 
     int ins = 0;
     int minIns = 0;
-    for (unsigned int i=ns; i<s.length()-ns*2; i++) {
+    for (unsigned int i=ns; i<s.length()-ns; i++) {
         if (s[i] == '(') ins ++; 
         if (s[i] == ')') ins --; 
         if (ins < minIns) minIns = ins;
-- 
2.43.0


From b678b802ff6ec79411e13f5dc8c75857250d1821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:59 +0000
Subject: [PATCH 14/33] fix: refuse sections and reads that reach beyond the
 end of a binary file

---
 c/binfile_utils.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index 408dd38..59d4ce5 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -13,14 +13,15 @@
 
 namespace BinFileUtils
 {
-    BinFile::BinFile(void *data, uint64_t size, std::string _type, uint32_t maxVersion)
+    BinFile::BinFile(void *data, uint64_t _size, std::string _type, uint32_t maxVersion)
     {
+        size = _size;
         addr = malloc(size);
         int nThreads = omp_get_max_threads() / 2;
         ThreadUtils::parcpy(addr, data, size, nThreads);
 
-        type.assign((const char *)addr, 4);
-        pos = 4;
+        pos = 0;
+        type.assign((const char *)read(4), 4);
 
         if (type != _type)
         {
@@ -47,7 +48,7 @@ namespace BinFileUtils
 
             sections[sType].push_back(Section((void *)((u_int64_t)addr + pos), sSize));
 
-            pos += sSize;
+            read(sSize);
         }
 
         pos = 0;
@@ -78,8 +79,8 @@ namespace BinFileUtils
         munmap(addrmm, sb.st_size);
         close(fd);
 
-        type.assign((const char *)addr, 4);
-        pos = 4;
+        pos = 0;
+        type.assign((const char *)read(4), 4);
 
         if (type != _type)
         {
@@ -106,7 +107,7 @@ namespace BinFileUtils
 
             sections[sType].push_back(Section((void *)((u_int64_t)addr + pos), sSize));
 
-            pos += sSize;
+            read(sSize);
         }
 
         pos = 0;
@@ -187,20 +188,21 @@ namespace BinFileUtils
 
     u_int32_t BinFile::readU32LE()
     {
-        u_int32_t res = *((u_int32_t *)((u_int64_t)addr + pos));
-        pos += 4;
-        return res;
+        return *((u_int32_t *)read(4));
     }
 
     u_int64_t BinFile::readU64LE()
     {
-        u_int64_t res = *((u_int64_t *)((u_int64_t)addr + pos));
-        pos += 8;
-        return res;
+        return *((u_int64_t *)read(8));
     }
 
     void *BinFile::read(u_int64_t len)
     {
+        if (len > size - pos)
+        {
+            throw new std::range_error("Read beyond the end of the file");
+        }
+
         void *res = (void *)((u_int64_t)addr + pos);
         pos += len;
         return res;
-- 
2.43.0


From db38bf78d72dd3998b179a7a87854e5151bd528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 15/33] fix: finishing a section when none is open is an error
 instead of a crash

---
 c/binfile_utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index 59d4ce5..93cf8da 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -144,6 +144,11 @@ namespace BinFileUtils
 
     void BinFile::endReadSection(bool check)
     {
+        if (readingSection == NULL)
+        {
+            throw new std::range_error("Not reading a section");
+        }
+
         if (check)
         {
             if ((u_int64_t)addr + pos - (u_int64_t)(readingSection->start) != readingSection->size)
-- 
2.43.0


From 0f92175dfdee7d8c55fc6575bc0c3d6ede5b474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 16/33] fix: report a file that cannot be mapped instead of
 crashing

---
 c/binfile_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index 93cf8da..eb1ea8e 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -70,6 +70,9 @@ namespace BinFileUtils
 
         size = sb.st_size;
         void *addrmm = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE | MAP_POPULATE, fd, 0);
+        if (addrmm == MAP_FAILED)
+            throw std::system_error(errno, std::generic_category(), "mmap");
+
         addr = malloc(sb.st_size);
 
         int nThreads = omp_get_max_threads() / 2;
-- 
2.43.0


From 61b8932855b296e1bd794383a1190e69244535ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 17/33] fix: strided multiexp selects nothing from an empty
 sequence

---
 c/multiexp.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/c/multiexp.cpp b/c/multiexp.cpp
index 4db20f2..7859315 100644
--- a/c/multiexp.cpp
+++ b/c/multiexp.cpp
@@ -59,9 +59,7 @@ template <typename Curve>
 void ParallelMultiexp<Curve>::processChunk(uint64_t idChunk, uint64_t nX, uint64_t size[]) {
     #pragma omp parallel for
     for(uint64_t i=0; i<n; i++) {
-        uint mod = i % nX;
-        uint len = size[mod] - 1;
-        if (i < 0 || i > len * nX + mod) continue;
+        if (i / nX >= size[i % nX]) continue;
         if (g.isZero(bases[i])) continue;
 #ifdef _OPENMP
         int idThread = omp_get_thread_num();
@@ -209,6 +207,10 @@ void ParallelMultiexp<Curve>::multiexp(typename Curve::Point &r,
         return;
     }
     if (n == 1) {
+        if (x[0] == 0) {
+            g.copy(r, g.zero());
+            return;
+        }
         g.mulByScalar(r, bases[0], scalars, scalarSize);
         return;
     }
-- 
2.43.0


From 58bdf7fbf37286c564b6661ab7745e325246f7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 18/33] fix: msm keeps the carry out of the last window

---
 c/msm.cpp | 2 +-
 c/msm.hpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/msm.cpp b/c/msm.cpp
index 204e2cd..519cbfd 100644
--- a/c/msm.cpp
+++ b/c/msm.cpp
@@ -50,7 +50,7 @@ void MSM<Curve, BaseField>::run(typename Curve::Point &r,
             for (int j = 0; j < nChunks; j++) {
                 int bucketIndex = getBucketIndex(i, j) + carry;
 
-                if (bucketIndex >= nBuckets) {
+                if (bucketIndex > nBuckets) {
                     bucketIndex -= nBuckets*2;
                     carry = 1;
                 } else {
diff --git a/c/msm.hpp b/c/msm.hpp
index bdfdb69..8e854cb 100644
--- a/c/msm.hpp
+++ b/c/msm.hpp
@@ -35,7 +35,8 @@ private:
     }
 
     uint64_t calcChunkCount(uint64_t scalarSize, uint64_t bitsPerChunk) const {
-        return ((scalarSize * 8 - 1 ) / bitsPerChunk) + 1;
+        // at least one bit more than the scalar has, for the carry of the signed digits
+        return (scalarSize * 8 / bitsPerChunk) + 1;
     }
 
     uint64_t calcBucketCount(uint64_t bitsPerChunk) const {
@@ -47,6 +48,7 @@ private:
         uint64_t byteStart = bitStart/8;
         uint64_t efectiveBitsPerChunk = bitsPerChunk;
 
+        if (bitStart >= scalarSize*8) return 0;
         if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
         if (bitStart + bitsPerChunk > scalarSize*8) efectiveBitsPerChunk = scalarSize*8 - bitStart;
 
-- 
2.43.0


From 249762c54ad5afa727d2be4e4283559765aaed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 19/33] fix: fft construction writes each root from one thread
 only

---
 c/fft.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/fft.cpp b/c/fft.cpp
index 9411fb8..eb9e5bb 100644
--- a/c/fft.cpp
+++ b/c/fft.cpp
@@ -91,7 +91,8 @@ FFT<Field>::FFT(u_int64_t maxDomainSize, uint32_t _nThreads)
     threadPool.parallelBlock([&] (int idThread, int nThreads) {
 
         uint64_t increment = nRoots / nThreads;
-        uint64_t start = idThread==0 ? 2 : idThread * increment;
+        uint64_t start = idThread * increment;
+        if (start < 2) start = 2;
         uint64_t end   = idThread==nThreads-1 ? nRoots : (idThread+1) * increment;
         if (end>start) {
             f.exp(roots[start], roots[1], (uint8_t *)(&start), sizeof(start));
-- 
2.43.0


From 9bfd098746c87cfc9c6e0e76f895f9b5ab86870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 20/33] fix: rawIsEq on ARM64 keeps the first words' difference
 for 7-word fields

---
 src/armbuilder.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 57ad918..10398d6 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -500,7 +500,7 @@ class Gen_rawIsEq extends GenBase {
     }
 
     longNumber() {
-        return (this.width >= 8);
+        return (this.width >= 7);
     }
 }
 
-- 
2.43.0


From 76817ed3e44193958d57001645d0f73769094aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:30 +0000
Subject: [PATCH 21/33] fix: rawShl on ARM64 reduces the result for one-word
 fields

---
 src/armbuilder.js | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 10398d6..755d2fc 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -1176,6 +1176,11 @@ class Gen_rawShl extends GenBase {
         if (this.width === 1) {
             this.op("ldr", "x3", "[x1]");
             this.op("lsl", "x3", "x3", "x2");
+            this.genLboMask("x3", new Reg(4));
+            this.op("adr", "x4", this.getVarName("rawq"));
+            this.op("ldr", "x4", "[x4]");
+            this.op("subs", "x5", "x3", "x4");
+            this.op("csel", "x3", "x5", "x3", "hs");
             this.op("str", "x3", "[x0]");
             this.op("ret");
             return;
-- 
2.43.0


From cd7d817ac32dc3364411c35bd8b3d295501c9a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 22/33] fix: rawFromMontgomery on ARM64 reads only the
 operand's words

---
 src/armbuilder.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 755d2fc..54c3059 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -1521,7 +1521,7 @@ class Gen_rawMul1 extends GenBase {
                 this.genLoadVar(this.b1, 1);
             }
         } else {
-            this.genLoadVar(this.r1, 1);
+            this.genLoadVar(this.r1.slice(0, this.width), 1);
 
             let lastR = this.r1[this.width];
             this.op("mov", lastR, "xzr");
-- 
2.43.0


From 60759ada80b135357a2a6d9aaf7e1cca2cbb18ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 23/33] fix: rawNegLS on ARM64 adds q after a borrow, not
 without one

---
 src/armbuilder.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 54c3059..3f46ec6 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -1010,7 +1010,7 @@ class Gen_rawNegLS extends GenBase {
         }
         if (this.width % 2) this.op_empty();
 
-        this.op("cset", "x2", "cs");
+        this.op("cset", "x2", "cc");
     }
 
     genSubtractionOpA() {
@@ -1021,7 +1021,7 @@ class Gen_rawNegLS extends GenBase {
         }
         if (this.width % 2) this.op_empty();
 
-        this.op("cset", "x3", "cs");
+        this.op("cset", "x3", "cc");
         this.op("orr",  "x3", "x3", "x2");
         this.op_empty();
         this.op("cbz", "x3", this.makeLabel("done"));
-- 
2.43.0


From c8ff7c2456a92a5bdd7134158e0b545873dc341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 24/33] fix: rawNegLS on ARM64 does not reuse live registers
 for 11 and 12 words

---
 src/armbuilder.js | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 3f46ec6..4289315 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -971,9 +971,15 @@ class Gen_rawNegLS extends GenBase {
 
         assert(width <= 12);
 
-        this.r1 = this.assignRegs(this.width);
+        this.isShort = (width <= 10);
         this.a2 = cyclicCopy(this.workRegs, this.width);
-        this.releaseRegs(this.workRegs);
+
+        if (this.isShort) {
+            this.r1 = this.assignRegs(this.width);
+            this.releaseRegs(this.workRegs);
+        } else {
+            this.r1 = this.a2;
+        }
         this.r2 = this.assignRegs(this.width);
         this.generate();
     }
@@ -986,7 +992,7 @@ class Gen_rawNegLS extends GenBase {
         this.genSubtractionOpA();
         this.op_empty();
 
-        this.genAdd(this.r2, this.r2, this.r1);
+        this.genAdditionQ();
         this.op_empty();
 
         this.op_label(this.makeLabel("done"));
@@ -1026,6 +1032,20 @@ class Gen_rawNegLS extends GenBase {
         this.op_empty();
         this.op("cbz", "x3", this.makeLabel("done"));
     }
+
+    genAdditionQ() {
+        if (this.isShort) {
+            this.genAdd(this.r2, this.r2, this.r1);
+            return;
+        }
+        this.op("adr", "x3", this.getVarName("rawq"));
+
+        for (let i = 0; i < this.width; i++) {
+            this.genLoadVarWord(this.r1, i, 3);
+            this.genAddWord(this.r2, this.r2, this.r1, i);
+            if (i % 2) this.op_empty();
+        }
+    }
 }
 
 class Gen_rawShr extends GenBase {
-- 
2.43.0


From c448ab2fb51a318e2dd03165241f7ec8fe443e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 25/33] fix: RawField::set(int) of a value below -q kept the
 sign lost and gave the wrong residue

---
 src/fr.cpp.ejs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/fr.cpp.ejs b/src/fr.cpp.ejs
index 66825ea..0d2e6a3 100644
--- a/src/fr.cpp.ejs
+++ b/src/fr.cpp.ejs
@@ -211,9 +211,7 @@ void Raw<%=name%>::set(Element &r, int value) {
   mpz_t mr;
   mpz_init(mr);
   mpz_set_si(mr, value);
-  if (value < 0) {
-      mpz_add(mr, mr, q);
-  }
+  mpz_fdiv_r(mr, mr, q);
 
   mpz_export((void *)(r.v), NULL, -1, 8, -1, 0, mr);
 
-- 
2.43.0


From 6950c17ba01b42fe8b473ec483789ba612f75d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 26/33] fix: element2str returned new[] memory that the
 documented free() may not release

---
 src/fr.cpp.ejs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fr.cpp.ejs b/src/fr.cpp.ejs
index 0d2e6a3..69722aa 100644
--- a/src/fr.cpp.ejs
+++ b/src/fr.cpp.ejs
@@ -67,7 +67,7 @@ char *<%=name%>_element2str(P<%=name%>Element pE) {
     mpz_t r;
     if (!(pE->type & <%=name%>_LONG)) {
         if (pE->shortVal>=0) {
-            char *r = new char[32];
+            char *r = (char *)malloc(32);
             sprintf(r, "%d", pE->shortVal);
             return r;
         } else {
-- 
2.43.0


From 551ec3f9479d968697ac9706dafd6b9b3ecd8ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 27/33] fix: option --oc wrote five of the generated files over
 each other

---
 src/buildzqfield.js | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/buildzqfield.js b/src/buildzqfield.js
index 6fbc2e0..e478faf 100755
--- a/src/buildzqfield.js
+++ b/src/buildzqfield.js
@@ -71,10 +71,12 @@ if (runningAsScript) {
     const asmFileName =  (argv.oa) ? argv.oa : argv.name.toLowerCase() + ".asm";
     const hFileName =  (argv.oh) ? argv.oh : argv.name.toLowerCase() + ".hpp";
     const cFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + ".cpp";
-    const hElementFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_element.hpp";
-    const cGenericFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_generic.cpp";
-    const cRawGenericFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_raw_generic.cpp";
-    const sRawArm64FileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_raw_arm64.s";
+    // the companion sources go beside the .cpp file, under the names by which the sources include each other
+    const companion = (suffix) => path.join(path.dirname(cFileName), argv.name.toLowerCase() + suffix);
+    const hElementFileName = companion("_element.hpp");
+    const cGenericFileName = companion("_generic.cpp");
+    const cRawGenericFileName = companion("_raw_generic.cpp");
+    const sRawArm64FileName = companion("_raw_arm64.s");
 
 
     buildField(q, argv.name).then( (res) => {
-- 
2.43.0


From d7a2558215b20d64fdbcae814501d03e2307aad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:37 +0000
Subject: [PATCH 28/33] fix: two threads using one thread pool could lose a
 piece of work or wait forever

---
 c/misc.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/misc.hpp b/c/misc.hpp
index 057d61e..61c1b04 100644
--- a/c/misc.hpp
+++ b/c/misc.hpp
@@ -64,7 +64,7 @@ class ThreadWorker
                 task();
                 task = nullptr;
             }
-            finished.notify_one();
+            finished.notify_all();
         }
     }
 
@@ -87,7 +87,11 @@ public:
     template<typename Func>
     void submit(Func func) {
         {
-            std::lock_guard<std::mutex> lock(mutex);
+            std::unique_lock<std::mutex> lock(mutex);
+
+            // the pool can be shared: do not replace a task of another thread
+            finished.wait(lock, [this]{return task == nullptr;});
+
             task = func;
         }
         occupied.notify_one();
-- 
2.43.0


From 9df1e4a8f8a94d8e5cac10ff6b48ddee6508fde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 29/33] fix: constructing a Curve wrote to the shared field
 object (self-assignment)

---
 c/curve.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/c/curve.cpp b/c/curve.cpp
index 4ea18f9..8e44273 100644
--- a/c/curve.cpp
+++ b/c/curve.cpp
@@ -2,13 +2,11 @@
 
 template <typename BaseField>
 Curve<BaseField>::Curve(BaseField &aF, typename BaseField::Element &aa, typename BaseField::Element &ab, typename BaseField::Element &agx, typename BaseField::Element &agy) : F(aF) {
-    F = aF;
     initCurve(aa, ab, agx, agy);
 }
 
 template <typename BaseField>
 Curve<BaseField>::Curve(BaseField &aF, std::string as, std::string bs, std::string gxs, std::string gys) : F(aF) {
-    F = aF;
 
     typename BaseField::Element aa;
     typename BaseField::Element ab;
-- 
2.43.0


From eefec317c4569a3f9db27b6c3ba3484a2c38f870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:18 +0000
Subject: [PATCH 30/33] fix: a binary file reader that refused its file kept
 the data and the descriptor

---
 c/binfile_utils.cpp | 15 ++++++++++++---
 c/binfile_utils.hpp |  4 ++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index eb1ea8e..ade8dbc 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -17,6 +17,7 @@ namespace BinFileUtils
     {
         size = _size;
         addr = malloc(size);
+        owner.reset(addr);
         int nThreads = omp_get_max_threads() / 2;
         ThreadUtils::parcpy(addr, data, size, nThreads);
 
@@ -66,14 +67,23 @@ namespace BinFileUtils
             throw std::system_error(errno, std::generic_category(), "open");
 
         if (fstat(fd, &sb) == -1) /* To obtain file size */
-            throw std::system_error(errno, std::generic_category(), "fstat");
+        {
+            int err = errno;
+            close(fd);
+            throw std::system_error(err, std::generic_category(), "fstat");
+        }
 
         size = sb.st_size;
         void *addrmm = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE | MAP_POPULATE, fd, 0);
         if (addrmm == MAP_FAILED)
-            throw std::system_error(errno, std::generic_category(), "mmap");
+        {
+            int err = errno;
+            close(fd);
+            throw std::system_error(err, std::generic_category(), "mmap");
+        }
 
         addr = malloc(sb.st_size);
+        owner.reset(addr);
 
         int nThreads = omp_get_max_threads() / 2;
         ThreadUtils::parcpy(addr, addrmm, sb.st_size, nThreads);
@@ -119,7 +129,6 @@ namespace BinFileUtils
 
     BinFile::~BinFile()
     {
-        free(addr);
     }
 
     void BinFile::startReadSection(u_int32_t sectionId, u_int32_t sectionPos)
diff --git a/c/binfile_utils.hpp b/c/binfile_utils.hpp
index a8d6de9..7f52d74 100644
--- a/c/binfile_utils.hpp
+++ b/c/binfile_utils.hpp
@@ -4,6 +4,7 @@
 #include <map>
 #include <vector>
 #include <memory>
+#include <cstdlib>
 
 namespace BinFileUtils
 {
@@ -11,7 +12,10 @@ namespace BinFileUtils
     class BinFile
     {
 
+        struct Release { void operator()(void *p) const { free(p); } };
+
         void *addr;
+        std::unique_ptr<void, Release> owner; // releases addr, also when a constructor throws
         u_int64_t size;
         u_int64_t pos;
 
-- 
2.43.0


From f1b97a9c964d7d69d456fb958c8b93c2dfacfc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:18 +0000
Subject: [PATCH 31/33] fix: loading the header of a witness or key file leaked
 it when the file was refused

---
 c/wtns_utils.cpp | 6 +++---
 c/zkey_utils.cpp | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/c/wtns_utils.cpp b/c/wtns_utils.cpp
index 2301c3a..b9dd70b 100644
--- a/c/wtns_utils.cpp
+++ b/c/wtns_utils.cpp
@@ -3,6 +3,7 @@
 namespace WtnsUtils {
 
 Header::Header() {
+    mpz_init(prime);
 }
 
 Header::~Header() {
@@ -10,18 +11,17 @@ Header::~Header() {
 }
 
 std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
-    Header *h = new Header();
+    std::unique_ptr<Header> h(new Header());
     f->startReadSection(1);
 
     h->n8 = f->readU32LE();
-    mpz_init(h->prime);
     mpz_import(h->prime, h->n8, -1, 1, -1, 0, f->read(h->n8));
 
     h->nVars = f->readU32LE();
 
     f->endReadSection();
 
-    return std::unique_ptr<Header>(h);
+    return h;
 }
 
 } // NAMESPACE
\ No newline at end of file
diff --git a/c/zkey_utils.cpp b/c/zkey_utils.cpp
index 52a5629..2e3ec64 100644
--- a/c/zkey_utils.cpp
+++ b/c/zkey_utils.cpp
@@ -5,6 +5,8 @@ namespace ZKeyUtils {
 
 
 Header::Header() {
+    mpz_init(qPrime);
+    mpz_init(rPrime);
 }
 
 Header::~Header() {
@@ -14,7 +16,7 @@ Header::~Header() {
 
 
 std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
-    auto h = new Header();
+    std::unique_ptr<Header> h(new Header());
 
     f->startReadSection(1);
     uint32_t protocol = f->readU32LE();
@@ -26,11 +28,9 @@ std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
     f->startReadSection(2);
 
     h->n8q = f->readU32LE();
-    mpz_init(h->qPrime);
     mpz_import(h->qPrime, h->n8q, -1, 1, -1, 0, f->read(h->n8q));
 
     h->n8r = f->readU32LE();
-    mpz_init(h->rPrime);
     mpz_import(h->rPrime, h->n8r , -1, 1, -1, 0, f->read(h->n8r));
 
     h->nVars = f->readU32LE();
@@ -47,7 +47,7 @@ std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
 
     h->nCoefs = f->getSectionSize(4) / (12 + h->n8r);
 
-    return std::unique_ptr<Header>(h);
+    return h;
 }
 
 } // namespace
-- 
2.43.0


From 141b4e2afee3f858ece2c4a59dba68e2b4f580f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:18 +0000
Subject: [PATCH 32/33] fix: a transform that refused its size leaked its big
 integers

---
 c/fft.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/fft.cpp b/c/fft.cpp
index eb9e5bb..133d730 100644
--- a/c/fft.cpp
+++ b/c/fft.cpp
@@ -69,6 +69,10 @@ FFT<Field>::FFT(u_int64_t maxDomainSize, uint32_t _nThreads)
     }
 
     if (s<domainPow) {
+        mpz_clear(m_qm1d2);
+        mpz_clear(m_q);
+        mpz_clear(m_nqr);
+        mpz_clear(m_aux);
         throw std::range_error("Domain size too big for the curve");
     }
 
-- 
2.43.0


From c2a8cc9d6726789145be237a848672748ffb342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:37 +0000
Subject: [PATCH 33/33] fix: compute proving-key field and coefficient widths
 in 64 bits

n8q*2, n8q*4 and 12+n8r were computed in 32 bits: with n8q >= 2^30 the
verification-key pointers were placed wrongly and short headers were accepted,
and n8r = 2^32-12 divided by zero.
---
 c/zkey_utils.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/c/zkey_utils.cpp b/c/zkey_utils.cpp
index 2e3ec64..ac4ac1b 100644
--- a/c/zkey_utils.cpp
+++ b/c/zkey_utils.cpp
@@ -37,15 +37,15 @@ std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
     h->nPublic = f->readU32LE();
     h->domainSize = f->readU32LE();
 
-    h->vk_alpha1 = f->read(h->n8q*2);
-    h->vk_beta1 = f->read(h->n8q*2);
-    h->vk_beta2 = f->read(h->n8q*4);
-    h->vk_gamma2 = f->read(h->n8q*4);
-    h->vk_delta1 = f->read(h->n8q*2);
-    h->vk_delta2 = f->read(h->n8q*4);
+    h->vk_alpha1 = f->read((u_int64_t)h->n8q*2);
+    h->vk_beta1 = f->read((u_int64_t)h->n8q*2);
+    h->vk_beta2 = f->read((u_int64_t)h->n8q*4);
+    h->vk_gamma2 = f->read((u_int64_t)h->n8q*4);
+    h->vk_delta1 = f->read((u_int64_t)h->n8q*2);
+    h->vk_delta2 = f->read((u_int64_t)h->n8q*4);
     f->endReadSection();
 
-    h->nCoefs = f->getSectionSize(4) / (12 + h->n8r);
+    h->nCoefs = f->getSectionSize(4) / (12 + (u_int64_t)h->n8r);
 
     return h;
 }
-- 
2.43.0

