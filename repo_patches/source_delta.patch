From 43ab2483508335592aaa5cdb0d99ebef385d04e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 01/19] fix: TracePoint::operator== compared m_data with itself

---
 cffi-interface/trace-db/TracePoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index f0365d4..0906469 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -428,7 +428,7 @@ public:
     inline bool operator==(const TracePoint & other) const {
         return m_counter == other.m_counter &&
                m_statement == other.m_statement &&
-               m_data == m_data;
+               m_data == other.m_data;
     }
 
     friend std::size_t hash_value(const TracePoint & tracePoint) {
-- 
2.43.0


From 8b1e36db87a4753978aeb0d158f10f02e26c2180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 02/19] fix: statement id was uninitialised for points without
 a STATEMENT_ID entry

---
 cffi-interface/trace-db/TracePoint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 0906469..c0b9223 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -259,6 +259,7 @@ private:
         Aux aux;
 
         m_counter = counter;
+        m_statement = 0;
 
         while (1) {
             char c = (char) INVALID_TAG;
-- 
2.43.0


From 5486ff724375fcbaf21269f0a5fd925b061b0aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 03/19] fix: concurrent trace reads shared a function-static
 auxiliary value

---
 cffi-interface/trace-db/TracePoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index c0b9223..cb51cab 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -292,7 +292,7 @@ private:
 
             case AUXILIARY:
                 {
-                    static uint64_t value;
+                    uint64_t value = 0;
                     BINARY_READ(is, &value, sizeof(value));
                     aux.push_back(value);
                     break;
-- 
2.43.0


From 24ae528514d37bc735c419cbbe1ba31ea1e8f602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 04/19] fix: scalar values wider than the value field
 overflowed it when read

---
 cffi-interface/trace-db/TraceVarInfo.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 959f5c6..09eeb47 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -109,6 +109,10 @@ private:
         m_size = types[m_type_index].getSize();
         m_value.u = 0;
 
+        if (m_format != BLOB && m_size > sizeof(m_value.u)) {
+            throw TraceError("Invalid size for scalar value.");
+        }
+
         switch (m_format) {
         case SIGNED:
             {
-- 
2.43.0


From fc6fc06d4f51768685aaef1125b492050a6b4126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 05/19] fix: blob ordering read past the end of the shorter
 blob

---
 cffi-interface/trace-db/TraceVarInfo.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 09eeb47..e27de03 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -367,7 +367,8 @@ public:
             std::vector<char> data({(char*) m_value.ptr,
                                     (char*) m_value.ptr + m_size});
             std::vector<char> otherData({(char*) other.m_value.ptr,
-                                         (char*) other.m_value.ptr + m_size});
+                                         (char*) other.m_value.ptr +
+                                         other.m_size});
             return std::tie(data,
                             m_name_index,
                             m_type_index,
-- 
2.43.0


From 74aacde0b80b2c35cb93bc176a869a66802eb30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 06/19] fix: pointers narrower than 8 bytes were written with 8
 bytes

---
 cffi-interface/trace-db/TraceVarInfo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index e27de03..3dddca9 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -264,7 +264,7 @@ private:
         case POINTER:
             {
                 void *val = m_value.ptr;
-                BINARY_WRITE(os, &val, sizeof(val));
+                BINARY_WRITE(os, &val, m_size);
             }
             break;
         case BLOB:
-- 
2.43.0


From 1a71dae391e5f8d5371c05d3a3328787aad10a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 07/19] fix: out-of-range name indices in the type dictionary
 were accepted

---
 cffi-interface/trace-db/Trace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 0337124..aa931c7 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -77,7 +77,7 @@ private:
         m_types.reserve(n_types);
 
         for (i = 0; i < n_types; i++) {
-            TypeDescription type(is);
+            TypeDescription type(is, m_names);
             m_types.push_back(type);
         }
 
-- 
2.43.0


From d5c6d852112c55e419588ce361ad5052ed7ed2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 08/19] fix: input ending inside the last type description was
 accepted

---
 cffi-interface/trace-db/Trace.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index aa931c7..e124b0b 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -78,6 +78,9 @@ private:
 
         for (i = 0; i < n_types; i++) {
             TypeDescription type(is, m_names);
+            if (!is.good()) {
+                throw TraceEOFError();
+            }
             m_types.push_back(type);
         }
 
-- 
2.43.0


From 1513ac7361e426e3a17e1a51be374f216827469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 09/19] fix: name dictionary scan ran past the buffer on
 truncated or unterminated input

---
 cffi-interface/trace-db/Trace.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index e124b0b..8347768 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -13,6 +13,7 @@
 #include <iterator>
 #include <ostream>
 #include <map>
+#include <memory>
 #include <random>
 #include <string>
 #include <utility>
@@ -53,13 +54,19 @@ private:
         uint64_t n_chars = 0;
         uint32_t n_types = 0;
         uint64_t i = 0;
-        char *buf = NULL;
 
         /* Read dictionary of names */
         BINARY_READ(is, &n_chars, sizeof(n_chars));
         if (n_chars > 0) {
-            buf = new char[n_chars];
+            std::unique_ptr<char[]> buffer(new char[n_chars]);
+            char *buf = buffer.get();
             BINARY_READ(is, buf, n_chars);
+            if (!is.good()) {
+                throw TraceEOFError();
+            }
+            if (buf[n_chars - 1] != 0) {
+                throw TraceError("Unterminated name dictionary.");
+            }
 
             do {
                 m_names.push_back(std::string(buf + i));
@@ -68,8 +75,6 @@ private:
                 }
                 i++;
             } while (i < n_chars);
-
-            delete[] buf;
         }
 
         /* Read dictionary of types */
-- 
2.43.0


From 815d9cad92b94515a732d18f90564702543d596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 10/19] fix: predicate cache kept references to destroyed
 predicates and bindings

---
 cffi-interface/trace-db/QueryObjects.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index ef621e6..5ae721b 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -505,8 +505,8 @@ public:
 class EvaluatePredicate
 {
 private:
-    const Predicate & m_predicate;
-    const FlyweightTraceVarInfos & m_variables;
+    const Predicate m_predicate;
+    const FlyweightTraceVarInfos m_variables;
     std::size_t m_hash;
 
     std::size_t computeHash() const {
-- 
2.43.0


From 5c01265b811268eb08756cb3f3d1140c27e98872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 11/19] fix: 8-byte floating point values were evaluated as
 4-byte floats

---
 cffi-interface/trace-db/QueryObjects.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index 5ae721b..c9ed83c 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -564,8 +564,10 @@ private:
                     return PredicateValue(var.getValue().s);
                 else if (f == POINTER)
                     return PredicateValue(var.getValue().u);
-                else if (f == FLOAT)
+                else if (f == FLOAT && var.getSize() == sizeof(float))
                     return PredicateValue(var.getValue().f);
+                else if (f == FLOAT)
+                    return PredicateValue(var.getValue().d);
                 else
                     return PredicateValue();
             }
-- 
2.43.0


From ea0d023dc1879fc5fc701c4e3982766fcffb2c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 12/19] fix: the reserved all-ones address corrupted the
 allocation map

---
 cffi-interface/trace-db/MemoryMap.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cffi-interface/trace-db/MemoryMap.hpp b/cffi-interface/trace-db/MemoryMap.hpp
index e4a688a..c53895b 100644
--- a/cffi-interface/trace-db/MemoryMap.hpp
+++ b/cffi-interface/trace-db/MemoryMap.hpp
@@ -148,6 +148,10 @@ public:
 
     // Update the memory map with new allocation information
     void updateMemoryMap(const TraceBufferSize &traceBufferSize) {
+        // This value is used as a sentinel and can't be used as a key
+        if (traceBufferSize.getAddress() == UINT64_MAX)
+            return;
+
         if (traceBufferSize.getSize() == 0)
             skipListRemove(traceBufferSize.getAddress());
         else
-- 
2.43.0


From e1946d9fa6c95ad45c063d242a021d76f129c194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 13/19] fix: opening a missing trace file selected on an
 invalid descriptor

---
 cffi-interface/trace-db/Utils.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cffi-interface/trace-db/Utils.hpp b/cffi-interface/trace-db/Utils.hpp
index 4bdc924..7a67612 100644
--- a/cffi-interface/trace-db/Utils.hpp
+++ b/cffi-interface/trace-db/Utils.hpp
@@ -54,6 +54,12 @@ inline boost::iostreams::stream_buffer
     int fd = open(filename, O_RDONLY | O_NONBLOCK);
     int result;
 
+    if (fd < 0 || fd >= FD_SETSIZE) {
+        if (fd >= 0)
+            close(fd);
+        throw TraceError(std::string(filename) + " could not be opened.");
+    }
+
     /* Now use select() to wait until there is data to read. For a regular
        file, this should return immediately. For a FIFO, it will block until
        some data is written. */
-- 
2.43.0


From e6662998c47b19816972c5829cb01f568e2dc993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 14/19] fix: add_trace_points wrote auxiliary values past the
 end of an empty vector

---
 cffi-interface/trace-db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db.cpp b/cffi-interface/trace-db.cpp
index b34b717..e732068 100644
--- a/cffi-interface/trace-db.cpp
+++ b/cffi-interface/trace-db.cpp
@@ -97,7 +97,7 @@ int add_trace_points(void /* TraceDB */ *db_ptr,
         Aux aux;
 
         for (uint32_t j = 0; j < c_points[i].n_aux; j++) {
-            aux[j] = c_points[i].aux[j];
+            aux.push_back(c_points[i].aux[j]);
         }
 
         for (uint32_t j = 0; j < c_points[i].n_vars; j++) {
-- 
2.43.0


From 145ae442137400651d346e127e8224787ca46d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:07 +0000
Subject: [PATCH 15/19] fix: queries without free variables returned every
 point twice

---
 cffi-interface/trace-db/Trace.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 8347768..e0da11f 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -174,16 +174,11 @@ private:
     {
         TracePoints hard_query_results(0);
 
-        // No free variables. Match every trace point once, with no bindings.
+        // No free variables. Match every trace point once, with no bindings
+        // (the cartesian product of no vectors is a single empty binding).
         if (variables.empty()) {
             // can't have predicate without variables
             assert(hard_predicate.getKind() == NULL_PREDICATE);
-            TracePoint point(current.getCounter(),
-                             current.getStatement(),
-                             TraceBufferSizes(),
-                             FlyweightTraceVarInfos(),
-                             std::vector<uint64_t>());
-            hard_query_results.push_back(point);
         }
 
         // Find possible bindings for each free variable
-- 
2.43.0


From 1be541c788d21c947241684431314af93c5fe2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:14 +0000
Subject: [PATCH 16/19] fix: input ending inside the type count was accepted

---
 cffi-interface/trace-db/Trace.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index e0da11f..44101b5 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -79,6 +79,9 @@ private:
 
         /* Read dictionary of types */
         BINARY_READ(is, &n_types, sizeof(n_types));
+        if (!is.good()) {
+            throw TraceEOFError();
+        }
         m_types.reserve(n_types);
 
         for (i = 0; i < n_types; i++) {
-- 
2.43.0


From bce83a75f004deeea63d68be316009c11f343771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:00 +0000
Subject: [PATCH 17/19] fix: type formats with the top bit set were accepted

---
 cffi-interface/trace-db/TypeDescription.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TypeDescription.hpp b/cffi-interface/trace-db/TypeDescription.hpp
index c08b52b..16de8e3 100644
--- a/cffi-interface/trace-db/TypeDescription.hpp
+++ b/cffi-interface/trace-db/TypeDescription.hpp
@@ -55,7 +55,7 @@ private:
         BINARY_READ(is, &m_format, sizeof(m_format));
         BINARY_READ(is, &m_size, sizeof(m_size));
 
-        if (m_format >= INVALID_FORMAT) {
+        if ((uint32_t) m_format >= INVALID_FORMAT) {
             throw TraceError("Invalid type format.");
         }
 
-- 
2.43.0


From 20734dbd8006486978aa7876bcfc1dbae7dc7439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:07 +0000
Subject: [PATCH 18/19] fix: report a blob that cannot be allocated instead of
 writing through null

---
 cffi-interface/trace-db/TraceVarInfo.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 3dddca9..e492f70 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -177,6 +177,9 @@ private:
                 }
 
                 m_value.ptr = malloc(m_size);
+                if (m_value.ptr == NULL && m_size > 0) {
+                    throw TraceError("Could not allocate blob value.");
+                }
                 BINARY_READ(is, m_value.ptr, m_size);
                 break;
             }
-- 
2.43.0


From 8f5fd102860354d25773c3a8ce532d233fcf48eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:48 +0000
Subject: [PATCH 19/19] fix: sizes of allocations that reach the end of the
 address space

---
 cffi-interface/trace-db/MemoryMap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cffi-interface/trace-db/MemoryMap.hpp b/cffi-interface/trace-db/MemoryMap.hpp
index c53895b..fd3a87b 100644
--- a/cffi-interface/trace-db/MemoryMap.hpp
+++ b/cffi-interface/trace-db/MemoryMap.hpp
@@ -167,9 +167,9 @@ public:
         snode *result;
         result = skipListFind(address);
         if (result) {
-            uint64_t region_end = result->key + result->value;
-            if (address <= region_end) {
-                bufferSize = region_end - address;
+            uint64_t offset = address - result->key;
+            if (offset <= result->value) {
+                bufferSize = result->value - offset;
             }
         }
 
-- 
2.43.0

