From 93faaa911f8be8d9f8065bda5cb9e6af174e5d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:40 +0000
Subject: [PATCH 01/22] fix: TracePoint::operator== compared m_data with itself

Two points with the same counter and statement but different variables,
buffer sizes or auxiliary values compared equal.
---
 cffi-interface/trace-db/TracePoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index f0365d4..0906469 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -428,7 +428,7 @@ public:
     inline bool operator==(const TracePoint & other) const {
         return m_counter == other.m_counter &&
                m_statement == other.m_statement &&
-               m_data == m_data;
+               m_data == other.m_data;
     }
 
     friend std::size_t hash_value(const TracePoint & tracePoint) {
-- 
2.43.0


From e9f1784d98adf411a3477e40ad931c643e9b5a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:40 +0000
Subject: [PATCH 02/22] fix: EvaluatePredicate cache keys held dangling
 references

Keys of the process-wide predicate cache referred to the predicate and
variables of the query that created them, which are gone when the next
query compares against them.
---
 cffi-interface/trace-db/QueryObjects.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index ef621e6..e0698e6 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -505,8 +505,10 @@ public:
 class EvaluatePredicate
 {
 private:
-    const Predicate & m_predicate;
-    const FlyweightTraceVarInfos & m_variables;
+    // Stored by value: these objects are kept as keys of a long-lived
+    // cache and outlive the arguments they were constructed from.
+    const Predicate m_predicate;
+    const FlyweightTraceVarInfos m_variables;
     std::size_t m_hash;
 
     std::size_t computeHash() const {
-- 
2.43.0


From 633cc89fec7fe56ac12a929e3a8673588f7f8b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:40 +0000
Subject: [PATCH 03/22] fix: evaluate 8-byte floating-point variables as
 doubles

Predicates read the first four bytes of every floating-point variable
as a float, whatever its size.
---
 cffi-interface/trace-db/QueryObjects.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index e0698e6..7dde561 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -567,7 +567,9 @@ private:
                 else if (f == POINTER)
                     return PredicateValue(var.getValue().u);
                 else if (f == FLOAT)
-                    return PredicateValue(var.getValue().f);
+                    return var.getSize() == sizeof(float) ?
+                           PredicateValue(var.getValue().f) :
+                           PredicateValue(var.getValue().d);
                 else
                     return PredicateValue();
             }
-- 
2.43.0


From cbca975f16ca81894c8c350a3f0a9e3ab031e4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:40 +0000
Subject: [PATCH 04/22] fix: queries without free variables returned each point
 twice

The empty product of bindings added a second result after the one made
for the no-variables case.
---
 cffi-interface/trace-db/Trace.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 0337124..bdefbb3 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -176,6 +176,7 @@ private:
                              FlyweightTraceVarInfos(),
                              std::vector<uint64_t>());
             hard_query_results.push_back(point);
+            return hard_query_results;
         }
 
         // Find possible bindings for each free variable
-- 
2.43.0


From b9ad389461a7103e1298c3fede3a18cf653ed5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:40 +0000
Subject: [PATCH 05/22] fix: reject unsupported sizes of unsigned, float and
 pointer variables

The size comes from the trace file; a size above eight bytes overflowed
the value. Signed integers were already checked.
---
 cffi-interface/trace-db/TraceVarInfo.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 959f5c6..8a80a54 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -76,6 +76,10 @@ private:
     uint64_t m_buffer_size;
     uint8_t m_has_buffer_size;
 
+    static bool validIntegerSize(uint32_t size) {
+        return size == 1 || size == 2 || size == 4 || size == 8;
+    }
+
     std::istream & read(std::istream & is,
                         const Names & names,
                         const TypeDescriptions & types) {
@@ -147,13 +151,26 @@ private:
             }
             break;
         case UNSIGNED:
+            {
+                if (!validIntegerSize(m_size)) {
+                    throw TraceError("Invalid size for unsigned integer.");
+                }
+                BINARY_READ(is, &m_value.u, m_size);
+            }
+            break;
         case FLOAT:
             {
+                if (m_size != sizeof(float) && m_size != sizeof(double)) {
+                    throw TraceError("Invalid size for floating point.");
+                }
                 BINARY_READ(is, &m_value.u, m_size);
             }
             break;
         case POINTER:
             {
+                if (!validIntegerSize(m_size)) {
+                    throw TraceError("Invalid size for pointer.");
+                }
                 BINARY_READ(is, &m_value.u, m_size);
                 m_buffer_size = map.computeBufferSize(m_value.u);
                 if (m_buffer_size != UINT64_MAX) {
-- 
2.43.0


From 1a54a82b45163040e199271ebf64da7753101991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:40 +0000
Subject: [PATCH 06/22] fix: write pointers with the size recorded in their
 type

A pointer of another size than this machine's was written as eight
bytes and could not be read back.
---
 cffi-interface/trace-db/TraceVarInfo.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 8a80a54..b0ed027 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -276,8 +276,9 @@ private:
             break;
         case POINTER:
             {
-                void *val = m_value.ptr;
-                BINARY_WRITE(os, &val, sizeof(val));
+                /* The value is kept zero-extended, low bytes first */
+                uint64_t val = m_value.u;
+                BINARY_WRITE(os, &val, m_size);
             }
             break;
         case BLOB:
-- 
2.43.0


From 51789f2933f9c247a44638db157f40294a015d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:40 +0000
Subject: [PATCH 07/22] fix: do not write a size in front of fixed-size blobs

The reader only expects a size for blob types of variable size, so a
trace with a fixed-size blob could not be read back after writing.
---
 cffi-interface/trace-db/Trace.hpp        |  2 +-
 cffi-interface/trace-db/TracePoint.hpp   | 10 ++++++++--
 cffi-interface/trace-db/TraceVarInfo.hpp | 17 ++++++++++++++++-
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index bdefbb3..8104849 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -116,7 +116,7 @@ private:
         }
 
         for (auto & point : m_points) {
-            os << point;
+            point.write(os, m_types);
         }
 
         return os;
diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 0906469..a0aaf91 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -311,6 +311,13 @@ private:
     }
 
     std::ostream & write(std::ostream & os) const {
+        return write(os, TypeDescriptions());
+    }
+
+public:
+    // Write in the layout expected when reading with the given types.
+    std::ostream & write(std::ostream & os,
+                         const TypeDescriptions & types) const {
         os.put(STATEMENT_ID);
         BINARY_WRITE(os, &m_statement, sizeof(m_statement));
 
@@ -321,7 +328,7 @@ private:
 
         for (auto & var : getVars()) {
             os.put(VARIABLE);
-            os << var;
+            var.get().write(os, types);
         }
 
         for (auto & aux : getAux()) {
@@ -333,7 +340,6 @@ private:
         return os;
     }
 
-public:
     TracePoint() :
         m_counter(0),
         m_statement(0),
diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index b0ed027..6f05139 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -202,6 +202,10 @@ private:
     }
 
     std::ostream & write(std::ostream & os) const {
+        return write(os, true);
+    }
+
+    std::ostream & write(std::ostream & os, bool variable_size) const {
         BINARY_WRITE(os, &m_name_index, sizeof(m_name_index));
         BINARY_WRITE(os, &m_type_index, sizeof(m_type_index));
 
@@ -284,7 +288,10 @@ private:
         case BLOB:
             {
                 void *val = m_value.ptr;
-                BINARY_WRITE(os, &m_size, sizeof(m_size));
+                if (variable_size) {
+                    /* Variable-sized type: write size to trace */
+                    BINARY_WRITE(os, &m_size, sizeof(m_size));
+                }
                 BINARY_WRITE(os, val, m_size);
             }
             break;
@@ -348,6 +355,14 @@ public:
 
     TraceVarInfo& operator=(const TraceVarInfo & other) = delete;
 
+    // Write in the layout expected when reading with the given types;
+    // the size of a blob is omitted if its type has a fixed size.
+    std::ostream & write(std::ostream & os,
+                         const TypeDescriptions & types) const {
+        return write(os, m_type_index >= types.size() ||
+                         types[m_type_index].getSize() == 0);
+    }
+
     inline VarValue getValue() const {
         return m_value;
     }
-- 
2.43.0


From a05872f8b6ab3c3b9153d7e9afb00f8a48ba64a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:12 +0000
Subject: [PATCH 08/22] fix: read the name dictionary without running past its
 end

A truncated dictionary or one whose last name is not NUL-terminated was
scanned beyond the buffer, and the buffer leaked when reading failed.
---
 cffi-interface/trace-db/Trace.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 8104849..26427c0 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -13,6 +13,7 @@
 #include <iterator>
 #include <ostream>
 #include <map>
+#include <memory>
 #include <random>
 #include <string>
 #include <utility>
@@ -53,23 +54,27 @@ private:
         uint64_t n_chars = 0;
         uint32_t n_types = 0;
         uint64_t i = 0;
-        char *buf = NULL;
 
         /* Read dictionary of names */
         BINARY_READ(is, &n_chars, sizeof(n_chars));
         if (n_chars > 0) {
-            buf = new char[n_chars];
-            BINARY_READ(is, buf, n_chars);
+            std::unique_ptr<char[]> buf(new char[n_chars]);
+            BINARY_READ(is, buf.get(), n_chars);
+
+            if (!is.good()) {
+                throw TraceEOFError();
+            }
+            if (buf[n_chars - 1] != 0) {
+                throw TraceError("Unterminated name.");
+            }
 
             do {
-                m_names.push_back(std::string(buf + i));
+                m_names.push_back(std::string(buf.get() + i));
                 while (buf[i] != 0) {
                     i++;
                 }
                 i++;
             } while (i < n_chars);
-
-            delete[] buf;
         }
 
         /* Read dictionary of types */
-- 
2.43.0


From 6a67a9deb82c05d188657e335568c425600e3c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:12 +0000
Subject: [PATCH 09/22] fix: detect truncation at the field where it happens

The stream was only checked before each read, so a file cut inside the
last header fields was accepted with the missing bytes taken as zero.
---
 cffi-interface/trace-db/Trace.hpp      | 3 ---
 cffi-interface/trace-db/TracePoint.hpp | 3 ++-
 cffi-interface/trace-db/Utils.hpp      | 7 ++++++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 26427c0..3365957 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -61,9 +61,6 @@ private:
             std::unique_ptr<char[]> buf(new char[n_chars]);
             BINARY_READ(is, buf.get(), n_chars);
 
-            if (!is.good()) {
-                throw TraceEOFError();
-            }
             if (buf[n_chars - 1] != 0) {
                 throw TraceError("Unterminated name.");
             }
diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index a0aaf91..fffdf97 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -262,7 +262,8 @@ private:
 
         while (1) {
             char c = (char) INVALID_TAG;
-            BINARY_READ(is, &c, sizeof(c));
+            CHECK_STREAM(is);
+            is.read(&c, sizeof(c));
             enum trace_entry_tag tag = (trace_entry_tag) c;
 
             if (!is.good() || tag == END_ENTRY) {
diff --git a/cffi-interface/trace-db/Utils.hpp b/cffi-interface/trace-db/Utils.hpp
index 4bdc924..cebd074 100644
--- a/cffi-interface/trace-db/Utils.hpp
+++ b/cffi-interface/trace-db/Utils.hpp
@@ -17,7 +17,7 @@
 
 #include "TraceError.hpp"
 
-#define BINARY_READ(stream, ptr, size)                          \
+#define CHECK_STREAM(stream)                                    \
     do {                                                        \
         if (!stream.good()) {                                   \
             if (stream.eof()) {                                 \
@@ -27,7 +27,12 @@
                 throw TraceError("Trace stream in bad state."); \
             }                                                   \
         }                                                       \
+    } while (0)
+
+#define BINARY_READ(stream, ptr, size)                          \
+    do {                                                        \
         stream.read( (char*) ptr, size );                       \
+        CHECK_STREAM(stream);                                   \
     } while (0)
 
 #define BINARY_WRITE(stream, ptr, size)   \
-- 
2.43.0


From 02791ee93643b3e03dac8f9488b96c56ac51eb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:12 +0000
Subject: [PATCH 10/22] fix: reject types whose name index is out of range

The index was later used unchecked to look up the type's name.
---
 cffi-interface/trace-db/Trace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 3365957..b9172fa 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -79,7 +79,7 @@ private:
         m_types.reserve(n_types);
 
         for (i = 0; i < n_types; i++) {
-            TypeDescription type(is);
+            TypeDescription type(is, m_names);
             m_types.push_back(type);
         }
 
-- 
2.43.0


From f494b1be0fd64ba8c30ffb5ec9e2102cf8466423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:12 +0000
Subject: [PATCH 11/22] fix: do not share the auxiliary value buffer between
 threads

Traces may be added from several threads at once; the static buffer let
one thread store another thread's value.
---
 cffi-interface/trace-db/TracePoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index fffdf97..839dafa 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -292,7 +292,7 @@ private:
 
             case AUXILIARY:
                 {
-                    static uint64_t value;
+                    uint64_t value;
                     BINARY_READ(is, &value, sizeof(value));
                     aux.push_back(value);
                     break;
-- 
2.43.0


From 499b92fa40e86accce53fc7e299d093d4859e131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:12 +0000
Subject: [PATCH 12/22] fix: initialize the statement id of points which do not
 record one

---
 cffi-interface/trace-db/TracePoint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 839dafa..aae8cef 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -259,6 +259,7 @@ private:
         Aux aux;
 
         m_counter = counter;
+        m_statement = 0;
 
         while (1) {
             char c = (char) INVALID_TAG;
-- 
2.43.0


From 92eff4dfb843f6e81451944045336ad07008b44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:12 +0000
Subject: [PATCH 13/22] fix: add_trace_points wrote auxiliary values past the
 end of a vector

---
 cffi-interface/trace-db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db.cpp b/cffi-interface/trace-db.cpp
index b34b717..e732068 100644
--- a/cffi-interface/trace-db.cpp
+++ b/cffi-interface/trace-db.cpp
@@ -97,7 +97,7 @@ int add_trace_points(void /* TraceDB */ *db_ptr,
         Aux aux;
 
         for (uint32_t j = 0; j < c_points[i].n_aux; j++) {
-            aux[j] = c_points[i].aux[j];
+            aux.push_back(c_points[i].aux[j]);
         }
 
         for (uint32_t j = 0; j < c_points[i].n_vars; j++) {
-- 
2.43.0


From 3c6d1712a0bf343bbbb20afb999bfaed8281c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:12 +0000
Subject: [PATCH 14/22] fix: fail instead of crashing or hanging when a trace
 can't be opened

A descriptor of -1 was passed to FD_SET and select().
---
 cffi-interface/trace-db/Utils.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cffi-interface/trace-db/Utils.hpp b/cffi-interface/trace-db/Utils.hpp
index cebd074..52bde64 100644
--- a/cffi-interface/trace-db/Utils.hpp
+++ b/cffi-interface/trace-db/Utils.hpp
@@ -59,6 +59,13 @@ inline boost::iostreams::stream_buffer
     int fd = open(filename, O_RDONLY | O_NONBLOCK);
     int result;
 
+    if (fd < 0 || fd >= FD_SETSIZE) {
+        /* Not opened, or not usable with select() */
+        if (fd >= 0)
+            close(fd);
+        throw TraceError(std::string(filename) + " could not be opened.");
+    }
+
     /* Now use select() to wait until there is data to read. For a regular
        file, this should return immediately. For a FIFO, it will block until
        some data is written. */
-- 
2.43.0


From 69a731dcf3bd8462297d40f7c486e81b24cb1d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:12 +0000
Subject: [PATCH 15/22] fix: ignore allocation records at the address used as
 sentinel

Freeing the address UINT64_MAX deleted the list's own head node.
---
 cffi-interface/trace-db/MemoryMap.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cffi-interface/trace-db/MemoryMap.hpp b/cffi-interface/trace-db/MemoryMap.hpp
index e4a688a..c53895b 100644
--- a/cffi-interface/trace-db/MemoryMap.hpp
+++ b/cffi-interface/trace-db/MemoryMap.hpp
@@ -148,6 +148,10 @@ public:
 
     // Update the memory map with new allocation information
     void updateMemoryMap(const TraceBufferSize &traceBufferSize) {
+        // This value is used as a sentinel and can't be used as a key
+        if (traceBufferSize.getAddress() == UINT64_MAX)
+            return;
+
         if (traceBufferSize.getSize() == 0)
             skipListRemove(traceBufferSize.getAddress());
         else
-- 
2.43.0


From 3e9b9260dfe37bf17bcd978c7e8040a2b663e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:12 +0000
Subject: [PATCH 16/22] fix: make the ordering of blob variables well defined

The other blob was read with this blob's size, and comparing a blob
with another format by its address gave no consistent order.
---
 cffi-interface/trace-db/TraceVarInfo.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 6f05139..d078ff1 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -392,11 +392,15 @@ public:
     }
 
     inline bool operator<(const TraceVarInfo & other) const {
-        if (m_format == BLOB and other.m_format == BLOB) {
+        if (m_format != other.m_format) {
+            return m_format < other.m_format;
+        }
+        else if (m_format == BLOB) {
             std::vector<char> data({(char*) m_value.ptr,
                                     (char*) m_value.ptr + m_size});
             std::vector<char> otherData({(char*) other.m_value.ptr,
-                                         (char*) other.m_value.ptr + m_size});
+                                         (char*) other.m_value.ptr +
+                                                 other.m_size});
             return std::tie(data,
                             m_name_index,
                             m_type_index,
-- 
2.43.0


From 3b0f6349217db5cccb4c4529a3dfca7aa3da76a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:12 +0000
Subject: [PATCH 17/22] fix: print the <= and >= predicates instead of aborting

---
 cffi-interface/trace-db/QueryObjects.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index 7dde561..2cf35a4 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -191,9 +191,15 @@ public:
             case LESS_THAN:
                 name = "<";
                 break;
+            case LESS_THAN_OR_EQUAL:
+                name = "<=";
+                break;
             case GREATER_THAN:
                 name = ">";
                 break;
+            case GREATER_THAN_OR_EQUAL:
+                name = ">=";
+                break;
             case EQUAL:
                 name = "=";
                 break;
-- 
2.43.0


From 089c584a69fd0eb07d028f40f62a9ec3dd8e05bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:12 +0000
Subject: [PATCH 18/22] fix: release blob data with the last variable that uses
 it

Blob data read from a trace or an archive was never freed, nor was the
allocation, whose size comes from the input, checked for failure.
---
 cffi-interface/trace-db/TraceVarInfo.hpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index d078ff1..5d5d4a1 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -8,7 +8,11 @@
 #ifndef __TRACE_VAR_INFO_HPP
 #define __TRACE_VAR_INFO_HPP
 
+#include <cstdlib>
+#include <cstring>
 #include <istream>
+#include <memory>
+#include <new>
 #include <ostream>
 #include <string>
 #include <vector>
@@ -75,6 +79,18 @@ private:
     uint32_t m_size;
     uint64_t m_buffer_size;
     uint8_t m_has_buffer_size;
+    // Owner of the blob data allocated by this class when reading or
+    // deserializing, shared by all copies of the object.  Empty for
+    // data passed to the constructor, which stays with the caller.
+    std::shared_ptr<void> m_blob;
+
+    void allocateBlob() {
+        m_blob.reset(malloc(m_size), free);
+        if (m_size != 0 && m_blob == nullptr) {
+            throw std::bad_alloc();
+        }
+        m_value.ptr = m_blob.get();
+    }
 
     static bool validIntegerSize(uint32_t size) {
         return size == 1 || size == 2 || size == 4 || size == 8;
@@ -189,7 +205,7 @@ private:
                     BINARY_READ(is, &m_size, sizeof(m_size));
                 }
 
-                m_value.ptr = malloc(m_size);
+                allocateBlob();
                 BINARY_READ(is, m_value.ptr, m_size);
                 break;
             }
@@ -337,7 +353,8 @@ public:
         m_format(other.m_format),
         m_size(other.m_size),
         m_buffer_size(other.m_buffer_size),
-        m_has_buffer_size(other.m_has_buffer_size)
+        m_has_buffer_size(other.m_has_buffer_size),
+        m_blob(other.m_blob)
     {}
 
     TraceVarInfo(std::istream & is,
@@ -538,7 +555,7 @@ public:
         ar & m_has_buffer_size;
 
         if (m_format == BLOB) {
-            m_value.ptr = malloc(m_size);
+            allocateBlob();
             for (uint32_t i = 0; i < m_size; i++)
                 ar & ((char*) m_value.ptr)[i];
         }
-- 
2.43.0


From 16a358f6b610426e190df43fdd971d22f6e40524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:51 +0000
Subject: [PATCH 19/22] fix: reject type formats with the highest bit set

The enumeration is compared as int, so a format above 2^31 looked
negative and passed the check.
---
 cffi-interface/trace-db/TypeDescription.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TypeDescription.hpp b/cffi-interface/trace-db/TypeDescription.hpp
index c08b52b..16de8e3 100644
--- a/cffi-interface/trace-db/TypeDescription.hpp
+++ b/cffi-interface/trace-db/TypeDescription.hpp
@@ -55,7 +55,7 @@ private:
         BINARY_READ(is, &m_format, sizeof(m_format));
         BINARY_READ(is, &m_size, sizeof(m_size));
 
-        if (m_format >= INVALID_FORMAT) {
+        if ((uint32_t) m_format >= INVALID_FORMAT) {
             throw TraceError("Invalid type format.");
         }
 
-- 
2.43.0


From d7046009d15fda0d5378ec8ff4a433244641d46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:46 +0000
Subject: [PATCH 20/22] fix: order variables by the bytes of their value only

operator== compares only the bytes given by the size of the variable, so
two equal variables built from values with different unused bytes (e.g. a
float stored in an uninitialized VarValue) compared as less than one
another.
---
 cffi-interface/trace-db/TraceVarInfo.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 5d5d4a1..6d2a935 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -96,6 +96,12 @@ private:
         return size == 1 || size == 2 || size == 4 || size == 8;
     }
 
+    static uint64_t valueMask(uint32_t size) {
+        return size == 1 || size == 2 || size == 4 ?
+               ((uint64_t) 1 << (8 * size)) - 1 :
+               UINT64_MAX;
+    }
+
     std::istream & read(std::istream & is,
                         const Names & names,
                         const TypeDescriptions & types) {
@@ -434,14 +440,18 @@ public:
                             other.m_has_buffer_size);
         }
         else {
-            return std::tie(m_value.u,
+            // Only the bytes which are part of the value count, as in
+            // operator==
+            uint64_t value = m_value.u & valueMask(m_size);
+            uint64_t otherValue = other.m_value.u & valueMask(other.m_size);
+            return std::tie(value,
                             m_name_index,
                             m_type_index,
                             m_format,
                             m_size,
                             m_buffer_size,
                             m_has_buffer_size) <
-                   std::tie(other.m_value.u,
+                   std::tie(otherValue,
                             other.m_name_index,
                             other.m_type_index,
                             other.m_format,
-- 
2.43.0


From 9614cb2af4b231ac319b9a17ba97bf250037622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:12 +0000
Subject: [PATCH 21/22] fix: wait for a handshake file which is filled after it
 was created

---
 instrumentation/c-cpp.lisp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/instrumentation/c-cpp.lisp b/instrumentation/c-cpp.lisp
index 1f29837..4243ec5 100644
--- a/instrumentation/c-cpp.lisp
+++ b/instrumentation/c-cpp.lisp
@@ -318,7 +318,11 @@ void __attribute__((constructor(101))) __bi_setup() {
   if (handshake_file_path) {
     while (access(handshake_file_path, 0) != 0) { sleep(1); }
     handshake_file = fopen(handshake_file_path, \"r\");
-    do { sleep(1); } while (fgets(buffer, 1024, handshake_file) == NULL);
+    do {
+      /* The file may be filled only later: forget that its end was reached. */
+      clearerr(handshake_file);
+      sleep(1);
+    } while (fgets(buffer, 1024, handshake_file) == NULL);
     buffer[strcspn(buffer, \"\\n\")] = 0;
     fclose(handshake_file);
     unlink(handshake_file_path);
-- 
2.43.0


From 8bd9185b08b810e7716ca85efeb1f02f88a968d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:57 +0000
Subject: [PATCH 22/22] fix: retry the wait for a pipe when a signal interrupts
 it

---
 cffi-interface/trace-db/Utils.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/Utils.hpp b/cffi-interface/trace-db/Utils.hpp
index 52bde64..970abf9 100644
--- a/cffi-interface/trace-db/Utils.hpp
+++ b/cffi-interface/trace-db/Utils.hpp
@@ -6,6 +6,7 @@
 #ifndef __UTILS_HPP
 #define __UTILS_HPP
 
+#include <errno.h>
 #include <fcntl.h>
 #include <sys/types.h>
 #include <sys/stat.h>
@@ -78,10 +79,16 @@ inline boost::iostreams::stream_buffer
         timeout.tv_sec = timeout_seconds;
         timeout.tv_usec = 0;
 
-        result = select(fd + 1, &set, NULL, NULL, &timeout);
+        /* A signal handled meanwhile does not end the wait; Linux leaves the
+           remaining time in timeout. */
+        do {
+            result = select(fd + 1, &set, NULL, NULL, &timeout);
+        } while (result < 0 && errno == EINTR);
     }
     else {
-        result = select(fd + 1, &set, NULL, NULL, NULL);
+        do {
+            result = select(fd + 1, &set, NULL, NULL, NULL);
+        } while (result < 0 && errno == EINTR);
     }
 
     if (result == 1) {
-- 
2.43.0

