From 51a33d66a33a06c83eac8b7d0e62db237f1b9da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:10 +0000
Subject: [PATCH 001/108] fix: Node::swap and Node::move re-parent the
 exchanged children

---
 src/libs/conduit/conduit_node.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index d166625..4387f3b 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -8775,6 +8775,16 @@ Node::swap(Node &n_b)
     // this should be an efficient O(1)
     std::swap(m_children,n_b.m_children);
 
+    // the swapped children need to point to their new parents
+    for(size_t i=0; i < m_children.size(); i++)
+    {
+        m_children[i]->set_parent(this);
+    }
+
+    for(size_t i=0; i < n_b.m_children.size(); i++)
+    {
+        n_b.m_children[i]->set_parent(&n_b);
+    }
 }
 
 
-- 
2.43.0


From 1e9e3c1cdc0f77c509100c08c36b37f3fbe732a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:10 +0000
Subject: [PATCH 002/108] fix: Node::set with an array view copies only the
 source's elements

---
 src/libs/conduit/conduit_node.cpp | 46 +++++++++++++++----------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 4387f3b..01e0ac7 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -937,7 +937,7 @@ Node::set_int8_array(const int8_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -959,7 +959,7 @@ Node::set_int16_array(const int16_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -981,7 +981,7 @@ Node::set_int32_array(const int32_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1003,7 +1003,7 @@ Node::set_int64_array(const int64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1029,7 +1029,7 @@ Node::set_uint8_array(const uint8_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1051,7 +1051,7 @@ Node::set_uint16_array(const uint16_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1073,7 +1073,7 @@ Node::set_uint32_array(const uint32_array  &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1095,7 +1095,7 @@ Node::set_uint64_array(const uint64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1120,7 +1120,7 @@ Node::set_float32_array(const float32_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1142,7 +1142,7 @@ Node::set_float64_array(const float64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1168,7 +1168,7 @@ Node::set(const char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1188,7 +1188,7 @@ Node::set(const signed_char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1204,7 +1204,7 @@ Node::set(const unsigned_char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1224,7 +1224,7 @@ Node::set(const short_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1239,7 +1239,7 @@ Node::set(const unsigned_short_array&data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1259,7 +1259,7 @@ Node::set(const int_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1274,7 +1274,7 @@ Node::set(const unsigned_int_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1294,7 +1294,7 @@ Node::set(const long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1309,7 +1309,7 @@ Node::set(const unsigned_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1329,7 +1329,7 @@ Node::set(const long_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1344,7 +1344,7 @@ Node::set(const unsigned_long_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1364,7 +1364,7 @@ Node::set(const float_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1384,7 +1384,7 @@ Node::set(const double_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
-- 
2.43.0


From 829ee911a59d57faa344258af70f3cf1bb1d038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:10 +0000
Subject: [PATCH 003/108] fix: Node::set with a vector or initializer list
 respects the destination stride

---
 src/libs/conduit/conduit_node.cpp | 414 ++++++++++++++++++++----------
 1 file changed, 276 insertions(+), 138 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 01e0ac7..5927a1f 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -1495,9 +1495,12 @@ void
 Node::set_int8_vector(const std::vector<int8> &data)
 {
     init(DataType::int8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int8)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(int8),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(int8));
 }
 
 //---------------------------------------------------------------------------//
@@ -1512,9 +1515,12 @@ void
 Node::set_int16_vector(const std::vector<int16> &data)
 {
     init(DataType::int16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int16)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(int16),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(int16));
 }
 
 //---------------------------------------------------------------------------//
@@ -1529,9 +1535,12 @@ void
 Node::set_int32_vector(const std::vector<int32> &data)
 {
     init(DataType::int32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int32)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(int32),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(int32));
 }
 
 //---------------------------------------------------------------------------//
@@ -1546,9 +1555,12 @@ void
 Node::set_int64_vector(const std::vector<int64> &data)
 {
     init(DataType::int64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int64)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(int64),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(int64));
 }
 
 //---------------------------------------------------------------------------//
@@ -1567,9 +1579,12 @@ void
 Node::set_uint8_vector(const std::vector<uint8> &data)
 {
     init(DataType::uint8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint8)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(uint8),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(uint8));
 }
 
 //---------------------------------------------------------------------------//
@@ -1584,9 +1599,12 @@ void
 Node::set_uint16_vector(const std::vector<uint16> &data)
 {
     init(DataType::uint16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint16)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(uint16),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(uint16));
 }
 
 //---------------------------------------------------------------------------//
@@ -1601,9 +1619,12 @@ void
 Node::set_uint32_vector(const std::vector<uint32> &data)
 {
     init(DataType::uint32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint32)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(uint32),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(uint32));
 }
 
 //---------------------------------------------------------------------------//
@@ -1618,9 +1639,12 @@ void
 Node::set_uint64_vector(const std::vector<uint64> &data)
 {
     init(DataType::uint64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint64)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(uint64),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(uint64));
 }
 
 //---------------------------------------------------------------------------//
@@ -1639,9 +1663,12 @@ void
 Node::set_float32_vector(const std::vector<float32> &data)
 {
     init(DataType::float32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float32)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(float32),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(float32));
 }
 
 //---------------------------------------------------------------------------//
@@ -1657,9 +1684,12 @@ void
 Node::set_float64_vector(const std::vector<float64> &data)
 {
     init(DataType::float64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float64)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(float64),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(float64));
 }
 
 //---------------------------------------------------------------------------//
@@ -1679,9 +1709,12 @@ void
 Node::set(const std::vector<char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(char)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(char),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(char));
 }
 
 //-----------------------------------------------------------------------------
@@ -1691,9 +1724,12 @@ void
 Node::set(const std::vector<signed char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(signed char)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(signed char),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(signed char));
 }
 
 //-----------------------------------------------------------------------------
@@ -1701,9 +1737,12 @@ void
 Node::set(const std::vector<unsigned char> &data)
 {
     init(DataType::c_unsigned_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned char)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(unsigned char),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(unsigned char));
 }
 //-----------------------------------------------------------------------------
 #endif // end use char check
@@ -1716,9 +1755,12 @@ void
 Node::set(const std::vector<short> &data)
 {
     init(DataType::c_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(short)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(short),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(short));
 }
 
 //-----------------------------------------------------------------------------
@@ -1726,9 +1768,12 @@ void
 Node::set(const std::vector<unsigned short> &data)
 {
     init(DataType::c_unsigned_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned short)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(unsigned short),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(unsigned short));
 }
 //-----------------------------------------------------------------------------
 #endif // end use short check
@@ -1741,9 +1786,12 @@ void
 Node::set(const std::vector<int> &data)
 {
     init(DataType::c_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(int),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(int));
 }
 
 //-----------------------------------------------------------------------------
@@ -1751,9 +1799,12 @@ void
 Node::set(const std::vector<unsigned int> &data)
 {
     init(DataType::c_unsigned_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned int)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(unsigned int),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(unsigned int));
 }
 //-----------------------------------------------------------------------------
 #endif // end use int check
@@ -1766,9 +1817,12 @@ void
 Node::set(const std::vector<long> &data)
 {
     init(DataType::c_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(long),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(long));
 }
 
 //-----------------------------------------------------------------------------
@@ -1776,9 +1830,12 @@ void
 Node::set(const std::vector<unsigned long> &data)
 {
     init(DataType::c_unsigned_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(unsigned long),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(unsigned long));
 }
 //-----------------------------------------------------------------------------
 #endif // end use long check
@@ -1791,9 +1848,12 @@ void
 Node::set(const std::vector<long long> &data)
 {
     init(DataType::c_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(long long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(long long),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(long long));
 }
 
 //-----------------------------------------------------------------------------
@@ -1801,9 +1861,12 @@ void
 Node::set(const std::vector<unsigned long long> &data)
 {
     init(DataType::c_unsigned_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned long long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(unsigned long long),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(unsigned long long));
 }
 //-----------------------------------------------------------------------------
 #endif // end use long long check
@@ -1816,9 +1879,12 @@ void
 Node::set(const std::vector<float> &data)
 {
     init(DataType::c_float(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(float),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(float));
 }
 //-----------------------------------------------------------------------------
 #endif // end use float check
@@ -1831,9 +1897,12 @@ void
 Node::set(const std::vector<double> &data)
 {
     init(DataType::c_double(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(double)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(double),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(double));
 }
 //-----------------------------------------------------------------------------
 #endif // end use double check
@@ -1869,9 +1938,12 @@ void
 Node::set_int8_initializer_list(const std::initializer_list<int8> &data)
 {
     init(DataType::int8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int8) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(int8),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(int8));
 }
 
 //-----------------------------------------------------------------------------
@@ -1888,9 +1960,12 @@ void
 Node::set_int16_initializer_list(const std::initializer_list<int16> &data)
 {
     init(DataType::int16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int16) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(int16),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(int16));
 }
 
 //-----------------------------------------------------------------------------
@@ -1907,9 +1982,12 @@ void
 Node::set_int32_initializer_list(const std::initializer_list<int32> &data)
 {
     init(DataType::int32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int32) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(int32),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(int32));
 }
 
 //-----------------------------------------------------------------------------
@@ -1927,9 +2005,12 @@ void
 Node::set_int64_initializer_list(const std::initializer_list<int64> &data)
 {
     init(DataType::int64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int64) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(int64),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(int64));
 }
 
 //-----------------------------------------------------------------------------
@@ -1951,9 +2032,12 @@ void
 Node::set_uint8_initializer_list(const std::initializer_list<uint8> &data)
 {
     init(DataType::uint8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint8) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(uint8),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(uint8));
 }
 
 //-----------------------------------------------------------------------------
@@ -1970,9 +2054,12 @@ void
 Node::set_uint16_initializer_list(const std::initializer_list<uint16> &data)
 {
     init(DataType::uint16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint16) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(uint16),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(uint16));
 }
 
 //-----------------------------------------------------------------------------
@@ -1989,9 +2076,12 @@ void
 Node::set_uint32_initializer_list(const std::initializer_list<uint32> &data)
 {
     init(DataType::uint32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint32) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(uint32),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(uint32));
 }
 
 //-----------------------------------------------------------------------------
@@ -2008,9 +2098,12 @@ void
 Node::set_uint64_initializer_list(const std::initializer_list<uint64> &data)
 {
     init(DataType::uint64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint64) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(uint64),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(uint64));
 }
 
 //-----------------------------------------------------------------------------
@@ -2032,9 +2125,12 @@ void
 Node::set_float32_initializer_list(const std::initializer_list<float32> &data)
 {
     init(DataType::float32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(float32) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(float32),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(float32));
 }
 
 //-----------------------------------------------------------------------------
@@ -2051,9 +2147,12 @@ void
 Node::set_float64_initializer_list(const std::initializer_list<float64> &data)
 {
     init(DataType::float64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(float64) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(float64),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(float64));
 }
 
 //-----------------------------------------------------------------------------
@@ -2072,9 +2171,12 @@ void
 Node::set(const std::initializer_list<char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(char) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(char),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(char));
 }
 
 //-----------------------------------------------------------------------------
@@ -2084,9 +2186,12 @@ void
 Node::set(const std::initializer_list<signed char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(signed char) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(signed char),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(signed char));
 }
 
 //-----------------------------------------------------------------------------
@@ -2094,9 +2199,12 @@ void
 Node::set(const std::initializer_list<unsigned char> &data)
 {
     init(DataType::c_unsigned_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned char) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(unsigned char),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(unsigned char));
 }
 
 //-----------------------------------------------------------------------------
@@ -2110,9 +2218,12 @@ void
 Node::set(const std::initializer_list<short> &data)
 {
     init(DataType::c_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(short) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(short),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(short));
 }
 
 //-----------------------------------------------------------------------------
@@ -2120,9 +2231,12 @@ void
 Node::set(const std::initializer_list<unsigned short> &data)
 {
     init(DataType::c_unsigned_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned short) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(unsigned short),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(unsigned short));
 }
 
 //-----------------------------------------------------------------------------
@@ -2136,9 +2250,12 @@ void
 Node::set(const std::initializer_list<int> &data)
 {
     init(DataType::c_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(int),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(int));
 }
 
 //-----------------------------------------------------------------------------
@@ -2146,9 +2263,12 @@ void
 Node::set(const std::initializer_list<unsigned int> &data)
 {
     init(DataType::c_unsigned_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned int) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(unsigned int),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(unsigned int));
 }
 
 //-----------------------------------------------------------------------------
@@ -2162,9 +2282,12 @@ void
 Node::set(const std::initializer_list<long> &data)
 {
     init(DataType::c_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(long),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(long));
 }
 
 //-----------------------------------------------------------------------------
@@ -2172,9 +2295,12 @@ void
 Node::set(const std::initializer_list<unsigned long> &data)
 {
     init(DataType::c_unsigned_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(unsigned long),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(unsigned long));
 }
 
 //-----------------------------------------------------------------------------
@@ -2188,9 +2314,12 @@ void
 Node::set(const std::initializer_list<long long> &data)
 {
     init(DataType::c_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(long long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(long long),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(long long));
 }
 
 //-----------------------------------------------------------------------------
@@ -2198,9 +2327,12 @@ void
 Node::set(const std::initializer_list<unsigned long long> &data)
 {
     init(DataType::c_unsigned_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned long long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(unsigned long long),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(unsigned long long));
 }
 
 //-----------------------------------------------------------------------------
@@ -2214,9 +2346,12 @@ void
 Node::set(const std::initializer_list<float> &data)
 {
     init(DataType::c_float(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(float) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(float),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(float));
 }
 //-----------------------------------------------------------------------------
 #endif // end use float check
@@ -2229,9 +2364,12 @@ void
 Node::set(const std::initializer_list<double> &data)
 {
     init(DataType::c_double(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(double) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),     // dest ptr
+                                           data.size(),      // num ele
+                                           sizeof(double),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(double));
 }
 //-----------------------------------------------------------------------------
 #endif // end use double check
-- 
2.43.0


From 251cb22205bfd894244ac45d9785576c4444bef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:10 +0000
Subject: [PATCH 004/108] fix: Node::add_child releases list children when a
 list becomes an object

---
 src/libs/conduit/conduit_node.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 5927a1f..669a74d 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14416,6 +14416,13 @@ Node::add_child(const std::string &name)
         return child(name);
     }
 
+    // adding a named child forces OBJECT_ID, init releases any data or
+    // list children this Node already holds
+    if(!dtype().is_object())
+    {
+        init(DataType::object());
+    }
+
     Schema &child_schema = m_schema->add_child(name);
     Schema *child_ptr = &child_schema;
     Node *child_node = new Node();
-- 
2.43.0


From 7b8a98e7dea7a399ca1b0271d5f99f81ad8bc0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:10 +0000
Subject: [PATCH 005/108] fix: Node::fetch_existing reports an error for an
 empty path

---
 src/libs/conduit/conduit_node.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 669a74d..76db979 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14475,6 +14475,11 @@ Node::fetch_existing(const std::string &path) const
                       << ") is not an object");
     }
 
+    if(path.empty())
+    {
+        CONDUIT_ERROR("Cannot fetch_existing empty path string");
+    }
+
     std::string p_curr;
     std::string p_next;
     utils::split_path(path,p_curr,p_next);
@@ -14524,6 +14529,11 @@ Node::fetch_existing(const std::string &path)
                       << ") is not an object");
     }
 
+    if(path.empty())
+    {
+        CONDUIT_ERROR("Cannot fetch_existing empty path string");
+    }
+
     std::string p_curr;
     std::string p_next;
     utils::split_path(path,p_curr,p_next);
-- 
2.43.0


From 4bb0ecaed396ec4d51c171f8bce17c5fbde73a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:10 +0000
Subject: [PATCH 006/108] fix: Node::fetch keeps a leaf's data for empty and
 parent paths

---
 src/libs/conduit/conduit_node.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 76db979..c1a75a0 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14581,12 +14581,6 @@ Node::fetch_existing(const std::string &path)
 Node&
 Node::fetch(const std::string &path)
 {
-    // fetch w/ path forces OBJECT_ID
-    if(!dtype().is_object())
-    {
-        init(DataType::object());
-    }
-
     if(path.empty())
     {
         CONDUIT_ERROR("Cannot fetch empty path string");
@@ -14615,6 +14609,14 @@ Node::fetch(const std::string &path)
         }
     }
 
+    // fetch of a child path forces OBJECT_ID
+    // (note: only after we know that the path refers to a child, so that
+    //  empty and parent paths do not wipe this Node's data)
+    if(!dtype().is_object())
+    {
+        init(DataType::object());
+    }
+
     // if this node doesn't exist yet, we need to create it and
     // link it to a schema
 
-- 
2.43.0


From 6c5dcae94af852eac1d7d791966f5a598ec0edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:10 +0000
Subject: [PATCH 007/108] fix: Node::serialize packs strided leaves at their
 compact offsets

---
 src/libs/conduit/conduit_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index c1a75a0..a16ea5b 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17780,7 +17780,7 @@ Node::serialize(uint8 *data,index_t curr_offset) const
         for(itr = m_children.begin(); itr < m_children.end(); ++itr)
         {
             (*itr)->serialize(&data[0],curr_offset);
-            curr_offset+=(*itr)->total_strided_bytes();
+            curr_offset+=(*itr)->total_bytes_compact();
         }
     }
     else
-- 
2.43.0


From 84e0836cf7e85ac6d6d7119d779a9190f1153c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:10 +0000
Subject: [PATCH 008/108] fix: Node::remove checks the index before it deletes
 the child

---
 src/libs/conduit/conduit_node.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index a16ea5b..0f13d16 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14813,6 +14813,12 @@ Node::append()
 void
 Node::remove(index_t idx)
 {
+    if( ((size_t) idx) >= m_children.size())
+    {
+        CONDUIT_ERROR("Cannot remove child, invalid child index: " << idx <<
+                      " (number of children: " << m_children.size() << ")");
+    }
+
     // note: we must remove the child pointer before the
     // schema. b/c the child pointer uses the schema
     // to cleanup
-- 
2.43.0


From d50297659b481abe97ac5c9ff8f9a888463ba1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:11 +0000
Subject: [PATCH 009/108] fix: Schema compatible and equals handle child names
 with embedded slashes

---
 src/libs/conduit/conduit_schema.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index e7c7bfe..87b5d89 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -322,7 +322,7 @@ Schema::compatible(const Schema &s) const
             itr++)
         {
             // make sure we actually have the path
-            if(has_path(itr->first))
+            if(has_child(itr->first))
             {
                 // use index to fetch the child from the other schema
                 const Schema &s_chld = s.child(itr->second);
@@ -379,7 +379,7 @@ Schema::equals(const Schema &s) const
             itr != s.object_map().end() && res;
             itr++)
         {
-            if(has_path(itr->first))
+            if(has_child(itr->first))
             {
                 size_t s_idx = (size_t) itr->second;
                 res = s.children()[s_idx]->equals(child(itr->first));
@@ -394,7 +394,7 @@ Schema::equals(const Schema &s) const
             itr != object_map().end() && res;
             itr++)
         {
-            if(s.has_path(itr->first))
+            if(s.has_child(itr->first))
             {
                 size_t idx = (size_t) itr->second;
                 res = children()[idx]->equals(s.child(itr->first));
-- 
2.43.0


From e4d3e1c55d1a8c8b937eaf5fcff1e5752434bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:04 +0000
Subject: [PATCH 010/108] fix: Node::swap keeps the parent schema in step when
 siblings are swapped

---
 src/libs/conduit/conduit_node.cpp | 35 ++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 0f13d16..0df62bf 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -8855,40 +8855,51 @@ Node::swap(Node &n_b)
     Schema *schema_a = m_schema;
     Schema *schema_b = n_b.m_schema;
 
+    // as we swap, we need to make sure the parent schemas are updated
+    // Note: both indices are found before either parent is changed, since
+    // the Nodes may have the same parent
+    Schema *a_parent_schema = NULL;
+    Schema *b_parent_schema = NULL;
+    index_t a_idx = -1;
+    index_t b_idx = -1;
+
     // check if node a has a parent Node
     if(this->parent() != NULL)
     {
         // find index in parent schema
-        Schema *a_parent_schema = schema_a->parent();
-        index_t idx = a_parent_schema->child_index(schema_a);
-        // as we swap, we need to make sure the parent schema is updated
-        if(idx < 0)
+        a_parent_schema = schema_a->parent();
+        a_idx = a_parent_schema->child_index(schema_a);
+        if(a_idx < 0)
         {
             // error
             CONDUIT_ERROR("Node::swap internal error,"
                          "failed to find schema child index in this Node's parent.");
         }
-
-        a_parent_schema->children()[idx] = schema_b;
     }
 
     // check if node b has a parent Node
     if(n_b.parent() != NULL)
     {
         // find index in parent schema
-        Schema *b_parent_schema = schema_b->parent();
-        index_t idx = b_parent_schema->child_index(schema_b);
-
-        // as we swap, we need to make sure the parent schema is updated
-        if(idx < 0)
+        b_parent_schema = schema_b->parent();
+        b_idx = b_parent_schema->child_index(schema_b);
+        if(b_idx < 0)
         {
             // error
             CONDUIT_ERROR("Node::swap internal error,"
                          "failed to find schema child index in passed Node's parent.");
 
         }
+    }
 
-        b_parent_schema->children()[idx] = schema_a;
+    if(a_parent_schema != NULL)
+    {
+        a_parent_schema->children()[a_idx] = schema_b;
+    }
+
+    if(b_parent_schema != NULL)
+    {
+        b_parent_schema->children()[b_idx] = schema_a;
     }
 
     // swap-o-rama
-- 
2.43.0


From 1eb79dd961859d2e84baa9f84bd65553be181519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:22 +0000
Subject: [PATCH 011/108] fix: Node::list_of_external starts from a reset node

---
 src/libs/conduit/conduit_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 0df62bf..4f76e6f 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14931,7 +14931,7 @@ Node::list_of_external(void *data,
                        const Schema &schema,
                        index_t num_entries)
 {
-    release();
+    reset();
     init_list();
 
     Schema s_compact;
-- 
2.43.0


From 722b86f5ffaf462910d12d5f8a46d4cbf7aaa316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:32 +0000
Subject: [PATCH 012/108] fix: DataType spanned and strided bytes are not
 negative for zero strided elements

---
 src/libs/conduit/conduit_data_type.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_data_type.cpp b/src/libs/conduit/conduit_data_type.cpp
index af6a717..93a8cd5 100644
--- a/src/libs/conduit/conduit_data_type.cpp
+++ b/src/libs/conduit/conduit_data_type.cpp
@@ -640,6 +640,11 @@ DataType::set(conduit::index_t dtype_id,
 conduit::index_t
 DataType::strided_bytes() const
 {
+    // zero elements don't span any memory
+    if(m_num_ele < 1)
+    {
+        return 0;
+    }
     // this is the memory extent excluding the offset
     return m_stride * (m_num_ele -1) + m_ele_bytes;
 }
@@ -656,7 +661,7 @@ DataType::bytes_compact() const
 conduit::index_t
 DataType::spanned_bytes() const
 {
-    return m_offset + m_stride * (m_num_ele -1) + m_ele_bytes;
+    return m_offset + strided_bytes();
 }
 
 //---------------------------------------------------------------------------//
-- 
2.43.0


From 3192aee436c56ed02558909aeff28367cbe8cbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:53 +0000
Subject: [PATCH 013/108] fix: DataArray::set from a view reads no further than
 the source's elements

---
 src/libs/conduit/conduit_data_array.cpp | 60 ++++++++++++++++---------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/libs/conduit/conduit_data_array.cpp b/src/libs/conduit/conduit_data_array.cpp
index ababf48..bde4a08 100644
--- a/src/libs/conduit/conduit_data_array.cpp
+++ b/src/libs/conduit/conduit_data_array.cpp
@@ -1763,7 +1763,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<int8> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1775,7 +1776,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<int16> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1787,7 +1789,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<int32> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1799,7 +1802,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<int64> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1815,7 +1819,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<uint8> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1827,7 +1832,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<uint16> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1839,7 +1845,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<uint32> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1851,7 +1858,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<uint64> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1867,7 +1875,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<float32> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1879,7 +1888,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<float64> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1901,7 +1911,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<int8> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1913,7 +1924,8 @@ template <typename T>
 void            
 DataArray<T>::set(const DataAccessor<int16> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1925,7 +1937,8 @@ template <typename T>
 void            
 DataArray<T>::set(const DataAccessor<int32> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1937,7 +1950,8 @@ template <typename T>
 void            
 DataArray<T>::set(const DataAccessor<int64> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1953,7 +1967,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<uint8> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1965,7 +1980,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<uint16> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1977,7 +1993,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<uint32> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1989,7 +2006,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<uint64> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -2005,7 +2023,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<float32> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -2017,7 +2036,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<float64> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
-- 
2.43.0


From a90038c0c6ea7389ccaa364f2a7aaeab168c8a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:28 +0000
Subject: [PATCH 014/108] fix: conduit_yaml external leaves keep their offset
 and stride

---
 src/libs/conduit/conduit_generator.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index feb5ef3..b4be8de 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -2732,8 +2732,7 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                         if (external) // handle conduit_yaml_external case
                         {
                             // node is already linked to the schema pointer
-                            schema->set(des_dtype);
-                            schema->print();
+                            schema->set(src_dtype);
                             node->set_data_ptr(data);
                         }
                         else
-- 
2.43.0


From 8cb89a089388c7c6a29653f565bbba52a82fae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:28 +0000
Subject: [PATCH 015/108] fix: conduit_yaml leaves without a length have one
 element

---
 src/libs/conduit/conduit_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index b4be8de..0d83a8c 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -2578,7 +2578,7 @@ Generator::Parser::YAML::parse_leaf_dtype(yaml_document_t *yaml_doc,
                 length = get_yaml_sequence_length(value_node);
             }
             // support explicit length 0 in a schema
-            else if (fetch_yaml_node_from_object_by_name(yaml_doc, yaml_node, "number_of_elements"))
+            else if (!fetch_yaml_node_from_object_by_name(yaml_doc, yaml_node, "number_of_elements"))
             {
                 length = 1;
             }
-- 
2.43.0


From 8b44cebe2080a72790d52b78fa120ec3883aaa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:26 +0000
Subject: [PATCH 016/108] fix: Generator::walk places leaves after strided data
 where Schema parsing places them

---
 src/libs/conduit/conduit_generator.cpp | 116 +++++++++++++++----------
 1 file changed, 70 insertions(+), 46 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 0d83a8c..01df441 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -182,7 +182,8 @@ public:
                                          const conduit_rapidjson::Value &jvalue);
     
     // if data pointer is provided, data is copied into dest node
-    static void    walk_json_schema(Node   *node,
+    // returns the strided bytes of the source data described
+    static index_t walk_json_schema(Node   *node,
                                     Schema *schema,
                                     void   *data,
                                     const conduit_rapidjson::Value &jvalue,
@@ -350,7 +351,8 @@ public:
                                     index_t curr_offset,
                                     const bool external = false);
 
-    static void    walk_yaml_schema(Node   *node,
+    // returns the strided bytes of the source data described
+    static index_t walk_yaml_schema(Node   *node,
                                     Schema *schema,
                                     void   *data,
                                     yaml_document_t *yaml_doc,
@@ -1357,13 +1359,15 @@ Generator::Parser::JSON::walk_pure_json_schema(Node *node,
 
 
 //---------------------------------------------------------------------------//
-void 
+index_t
 Generator::Parser::JSON::walk_json_schema(Node   *node,
                                           Schema *schema,
                                           void   *data,
                                           const conduit_rapidjson::Value &jvalue,
                                           index_t curr_offset)
 {
+    // strided bytes of the source data described by this entry
+    index_t src_bytes = 0;
     // object cases
     if(jvalue.IsObject())
     {
@@ -1407,14 +1411,16 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
                     curr_node->set_schema_ptr(curr_schema);
                     curr_node->set_parent(node);
                     node->append_node_ptr(curr_node);
-                    walk_json_schema(curr_node,
-                                     curr_schema,
-                                     data,
-                                     dt_value,
-                                     curr_offset);
+                    index_t curr_bytes =
+                        walk_json_schema(curr_node,
+                                          curr_schema,
+                                          data,
+                                          dt_value,
+                                          curr_offset);
+                    src_bytes += curr_bytes;
                     // auto offset only makes sense when we have data
                     if(data != NULL)
-                        curr_offset += curr_schema->total_strided_bytes();
+                        curr_offset += curr_bytes;
                 }
                 
             }
@@ -1423,6 +1429,7 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
                 // handle leaf node with explicit props
                 DataType src_dtype;
                 parse_leaf_dtype(jvalue,curr_offset,src_dtype);
+                src_bytes = src_dtype.strided_bytes();
 
                 DataType des_dtype;
                 src_dtype.compact_to(des_dtype);
@@ -1495,15 +1502,17 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
                 curr_node->set_schema_ptr(curr_schema);
                 curr_node->set_parent(node);
                 node->append_node_ptr(curr_node);
-                walk_json_schema(curr_node,
-                                 curr_schema,
-                                 data,
-                                 itr->value,
-                                 curr_offset);
+                index_t curr_bytes =
+                    walk_json_schema(curr_node,
+                                      curr_schema,
+                                      data,
+                                      itr->value,
+                                      curr_offset);
+                src_bytes += curr_bytes;
                 
                 // auto offset only makes sense when we have data
                 if(data != NULL)
-                    curr_offset += curr_schema->total_strided_bytes();
+                    curr_offset += curr_bytes;
             }
             
         }
@@ -1521,14 +1530,16 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
             curr_node->set_schema_ptr(curr_schema);
             curr_node->set_parent(node);
             node->append_node_ptr(curr_node);
-            walk_json_schema(curr_node,
-                             curr_schema,
-                             data,
-                             jvalue[i],
-                             curr_offset);
+            index_t curr_bytes =
+                walk_json_schema(curr_node,
+                                  curr_schema,
+                                  data,
+                                  jvalue[i],
+                                  curr_offset);
+            src_bytes += curr_bytes;
             // auto offset only makes sense when we have data
             if(data != NULL)
-                curr_offset += curr_schema->total_strided_bytes();
+                curr_offset += curr_bytes;
         }
     }
     // Simplest case, handles "uint32", "float64", with extended type info
@@ -1536,6 +1547,7 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
     {
         DataType dtype;
         parse_leaf_dtype(jvalue,curr_offset,dtype);
+        src_bytes = dtype.strided_bytes();
         schema->set(dtype);
         
         if(data != NULL)
@@ -1556,6 +1568,7 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
                       << "Invalid JSON type for parsing Node."
                       << " Expected: JSON Object, Array, or String");
     }
+    return src_bytes;
 }
 
 //---------------------------------------------------------------------------//
@@ -2634,7 +2647,7 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
 
 
 //---------------------------------------------------------------------------//
-void 
+index_t
 Generator::Parser::YAML::walk_yaml_schema(Node *node,
                                           Schema *schema,
                                           void *data,
@@ -2643,6 +2656,8 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                                           index_t curr_offset,
                                           const bool external)
 {
+    // strided bytes of the source data described by this entry
+    index_t src_bytes = 0;
     // object cases
     if (check_yaml_is_mapping_node(yaml_node))
     {
@@ -2695,17 +2710,19 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                     curr_node->set_schema_ptr(curr_schema);
                     curr_node->set_parent(node);
                     node->append_node_ptr(curr_node);
-                    walk_yaml_schema(curr_node,
-                                     curr_schema,
-                                     data,
-                                     yaml_doc,
-                                     dt_value,
-                                     curr_offset,
-                                     external);
+                    index_t curr_bytes =
+                        walk_yaml_schema(curr_node,
+                                          curr_schema,
+                                          data,
+                                          yaml_doc,
+                                          dt_value,
+                                          curr_offset,
+                                          external);
+                    src_bytes += curr_bytes;
                     // auto offset only makes sense when we have data
                     if (data)
                     {
-                        curr_offset += curr_schema->total_strided_bytes();
+                        curr_offset += curr_bytes;
                     }
                 }
             }
@@ -2714,6 +2731,7 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                 // handle leaf node with explicit props
                 DataType src_dtype;
                 parse_leaf_dtype(yaml_doc, yaml_node, curr_offset, src_dtype);
+                src_bytes = src_dtype.strided_bytes();
 
                 DataType des_dtype;
                 src_dtype.compact_to(des_dtype);
@@ -2802,18 +2820,20 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                 curr_node->set_schema_ptr(curr_schema);
                 curr_node->set_parent(node);
                 node->append_node_ptr(curr_node);
-                walk_yaml_schema(curr_node,
-                                 curr_schema,
-                                 data,
-                                 yaml_doc,
-                                 yaml_child,
-                                 curr_offset,
-                                 external);
+                index_t curr_bytes =
+                    walk_yaml_schema(curr_node,
+                                      curr_schema,
+                                      data,
+                                      yaml_doc,
+                                      yaml_child,
+                                      curr_offset,
+                                      external);
+                src_bytes += curr_bytes;
 
                 // auto offset only makes sense when we have data
                 if (data)
                 {
-                    curr_offset += curr_schema->total_strided_bytes();
+                    curr_offset += curr_bytes;
                 }
             }
         }
@@ -2834,17 +2854,19 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
             curr_node->set_schema_ptr(curr_schema);
             curr_node->set_parent(node);
             node->append_node_ptr(curr_node);
-            walk_yaml_schema(curr_node,
-                             curr_schema,
-                             data,
-                             yaml_doc,
-                             yaml_child,
-                             curr_offset,
-                             external);
+            index_t curr_bytes =
+                walk_yaml_schema(curr_node,
+                                  curr_schema,
+                                  data,
+                                  yaml_doc,
+                                  yaml_child,
+                                  curr_offset,
+                                  external);
+            src_bytes += curr_bytes;
             // auto offset only makes sense when we have data
             if (data)
             {
-                curr_offset += curr_schema->total_strided_bytes();
+                curr_offset += curr_bytes;
             }
         }
     }
@@ -2853,6 +2875,7 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
     {
         DataType dtype;
         parse_leaf_dtype(yaml_doc, yaml_node, curr_offset, dtype);
+        src_bytes = dtype.strided_bytes();
         schema->set(dtype);
 
         if (data)
@@ -2873,6 +2896,7 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                       << "Invalid YAML type for parsing Node."
                       << " Expected: YAML Object, Array, or String");
     }
+    return src_bytes;
 }
 
 
-- 
2.43.0


From de8520935027faf4d25084f3210b4e8e47bac8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:26 +0000
Subject: [PATCH 017/108] fix: Generator::walk copies the data of leaves
 described by a type name

---
 src/libs/conduit/conduit_generator.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 01df441..8d6c457 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -1548,12 +1548,17 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
         DataType dtype;
         parse_leaf_dtype(jvalue,curr_offset,dtype);
         src_bytes = dtype.strided_bytes();
-        schema->set(dtype);
-        
+
         if(data != NULL)
         {
+            DataType des_dtype;
+            dtype.compact_to(des_dtype);
             // node is already linked to the schema pointer
-            node->set_data_ptr(data);
+            // we need to dynamically alloc, and copy the data
+            node->set(des_dtype); // causes an init
+            utils::conduit_memcpy(node->data_ptr(),
+                                  ((uint8*)data) + dtype.offset(),
+                                  (size_t)dtype.bytes_compact());
         }
         else
         {
@@ -2876,13 +2881,24 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
         DataType dtype;
         parse_leaf_dtype(yaml_doc, yaml_node, curr_offset, dtype);
         src_bytes = dtype.strided_bytes();
-        schema->set(dtype);
 
-        if (data)
+        if (data && external)
         {
             // node is already linked to the schema pointer
+            schema->set(dtype);
             node->set_data_ptr(data);
         }
+        else if (data)
+        {
+            DataType des_dtype;
+            dtype.compact_to(des_dtype);
+            // node is already linked to the schema pointer
+            // we need to dynamically alloc, and copy the data
+            node->set(des_dtype); // causes an init
+            utils::conduit_memcpy(node->data_ptr(),
+                                  ((uint8*)data) + dtype.offset(),
+                                  (size_t)dtype.bytes_compact());
+        }
         else
         {
             // node is already linked to the schema pointer
-- 
2.43.0


From 9062a0724fcff824c8fa04d44a89b27862aeee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:26 +0000
Subject: [PATCH 018/108] fix: Node::contiguous_with does not lose the start
 address at nodes without data

---
 src/libs/conduit/conduit_node.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 4f76e6f..c01e0df 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17896,6 +17896,9 @@ Node::contiguous_with(uint8 *start_addy, uint8 *&end_addy) const
 {
     bool res = true;
 
+    // nodes without data end where they start
+    end_addy = start_addy;
+
     index_t dtype_id = dtype().id();
 
     if(dtype_id == DataType::OBJECT_ID ||
-- 
2.43.0


From 1c089d639a75a0cd309a461ad9627feb72b638ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:48 +0000
Subject: [PATCH 019/108] fix: Schema::to_yaml aligns the fields of leaves in
 lists

---
 src/libs/conduit/conduit_schema.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index 87b5d89..f7a8bca 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -651,7 +651,13 @@ Schema::to_yaml_stream(std::ostream &os,
         for(size_t i=0; i < nchildren;i++)
         {
             utils::indent(os,indent,depth,pad);
+            // we always need eoe, leaf entries start on their own line
             os << "- ";
+            if(!children()[i]->dtype().is_object() &&
+               !children()[i]->dtype().is_list())
+            {
+                os << eoe;
+            }
             children()[i]->to_yaml_stream(os,
                                           indent,
                                           depth+1,
-- 
2.43.0


From 3175532026114e1df566abd55cbfbc1959ed93c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:15 +0000
Subject: [PATCH 020/108] fix: Generator::walk_external does not print each
 leaf's schema

---
 src/libs/conduit/conduit_generator.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 8d6c457..60b2d72 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -1660,7 +1660,6 @@ Generator::Parser::JSON::walk_json_schema_external(Node   *node,
                     {
                         // node is already linked to the schema pointer
                         schema->set(dtype);
-                        schema->print();
                         node->set_data_ptr(data);
                     }
                     else
-- 
2.43.0


From fa56ef21179772e2158d468d110c1a0bc7099d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:45 +0000
Subject: [PATCH 021/108] fix: json_sanitize tracks strings that start the text
 or end in an escaped backslash

---
 src/libs/conduit/conduit_utils.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 6601ae1..4252cda 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -958,6 +958,7 @@ json_sanitize(const std::string &json)
     std::string res;
     bool        in_comment=false;
     bool        in_string=false;
+    bool        in_escape=false;
     bool        in_id =false;
     std::string cur_id = "";
 
@@ -965,7 +966,7 @@ json_sanitize(const std::string &json)
     {
         bool emit = true;
         // check for start & end of a string
-        if(json[i] == '\"' &&  ( i > 0 && ( json[i-1] != '\\' )))
+        if(json[i] == '\"' && !in_escape && !in_comment)
         {
             if(in_string)
                 in_string = false;
@@ -973,6 +974,10 @@ json_sanitize(const std::string &json)
                 in_string = true;
         }
 
+        // a backslash escapes the next char of a string,
+        // unless it is escaped itself
+        in_escape = in_string && json[i] == '\\' && !in_escape;
+
         // handle two cases were we want to sanitize:
         // comments '//' to end of line & unquoted ids
         if(!in_string)
-- 
2.43.0


From e9ef2cdb32119c99aaf0bc01fa101f820ac88bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:35 +0000
Subject: [PATCH 022/108] fix: json_sanitize handles ids at the start and end
 of the text

---
 src/libs/conduit/conduit_utils.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 4252cda..9cd86d7 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -1000,9 +1000,9 @@ json_sanitize(const std::string &json)
                 {
                     // ids can't start with numbers ,
                     // check the prior char if it exists
-                    if(i > 0 &&
-                       !check_num_char(json[i-1]) &&
-                       json[i-1] != '.')
+                    if(i == 0 ||
+                       (!check_num_char(json[i-1]) &&
+                        json[i-1] != '.'))
                     {
                         in_id = true;
                         // accum id chars
@@ -1057,6 +1057,21 @@ json_sanitize(const std::string &json)
             res += json[i];
     }
 
+    // the text may end with an id
+    if(in_id)
+    {
+        if( !(cur_id == "true"  ||
+              cur_id == "false" ||
+              cur_id == "null" ))
+        {
+            res += "\"" + cur_id + "\"";
+        }
+        else
+        {
+            res += cur_id;
+        }
+    }
+
     return res;
 }
 
-- 
2.43.0


From c54693795d38d5496870085dde587b7025fbbef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:51 +0000
Subject: [PATCH 023/108] fix: child names are escaped in JSON text

---
 src/libs/conduit/conduit_node.cpp   | 4 +++-
 src/libs/conduit/conduit_schema.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index c01e0df..6d767d7 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -13659,7 +13659,9 @@ Node::to_json_generic(std::ostream &os,
         for(size_t i=0; i <  nchildren;i++)
         {
             utils::indent(os,indent,depth+1,pad);
-            os << "\""<< m_schema->object_order()[i] << "\": ";
+            os << "\""
+               << utils::escape_special_chars(m_schema->object_order()[i])
+               << "\": ";
             m_children[i]->to_json_generic(os,
                                            detailed,
                                            address,
diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index f7a8bca..70af89c 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -546,7 +546,9 @@ Schema::to_json_stream(std::ostream &os,
         for(size_t i=0; i < nchildren;i++)
         {
             utils::indent(os,indent,depth+1,pad);
-            os << "\""<< object_order()[i] << "\": ";
+            os << "\""
+               << utils::escape_special_chars(object_order()[i])
+               << "\": ";
             children()[i]->to_json_stream(os,indent,depth+1,pad,eoe);
             if(i < nchildren-1)
                 os << ",";
-- 
2.43.0


From a312785bb798ce288c67f8503edf38889db4dc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:52 +0000
Subject: [PATCH 024/108] fix: child names that are not plain YAML scalars are
 quoted in YAML text

---
 src/libs/conduit/conduit_node.cpp   |  2 +-
 src/libs/conduit/conduit_schema.cpp |  2 +-
 src/libs/conduit/conduit_utils.cpp  | 15 +++++++++++++++
 src/libs/conduit/conduit_utils.hpp  |  4 ++++
 4 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 6d767d7..13e5268 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14070,7 +14070,7 @@ Node::to_yaml_generic(std::ostream &os,
         for(size_t i=0; i <  nchildren;i++)
         {
             utils::indent(os,indent,depth,pad);
-            os << m_schema->object_order()[i] << ": ";
+            os << utils::yaml_object_name(m_schema->object_order()[i]) << ": ";
             m_children[i]->to_yaml_generic(os,
                                            detailed,
                                            indent,
diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index 70af89c..d1df1d9 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -635,7 +635,7 @@ Schema::to_yaml_stream(std::ostream &os,
         {
             utils::indent(os,indent,depth,pad);
             // we always need eoe
-            os << object_order()[i] << ": " << eoe;
+            os << utils::yaml_object_name(object_order()[i]) << ": " << eoe;
             children()[i]->to_yaml_stream(os,
                                           indent,
                                           depth+1,
diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 9cd86d7..f9ddf27 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -1195,6 +1195,21 @@ escape_special_chars(const std::string &input)
     return res;
 }
 
+//-----------------------------------------------------------------------------
+std::string
+yaml_object_name(const std::string &name)
+{
+    // chars with special meaning in YAML
+    const std::string special(":#\"'\\\n\t\b\f\r{}[],&*!|>%@`");
+    bool plain = !name.empty() &&
+                 name[0] != ' ' && name[0] != '-' && name[0] != '?' &&
+                 name[name.size()-1] != ' ' &&
+                 name.find_first_of(special) == std::string::npos;
+    if(plain)
+        return name;
+    return "\"" + escape_special_chars(name) + "\"";
+}
+
 //-----------------------------------------------------------------------------
 std::string
 unescape_special_chars(const std::string &input)
diff --git a/src/libs/conduit/conduit_utils.hpp b/src/libs/conduit/conduit_utils.hpp
index 03cdf96..c29e2ae 100644
--- a/src/libs/conduit/conduit_utils.hpp
+++ b/src/libs/conduit/conduit_utils.hpp
@@ -483,6 +483,10 @@ namespace utils
     std::string CONDUIT_API escape_special_chars(const std::string &input);
     std::string CONDUIT_API unescape_special_chars(const std::string &input);
 
+/// Helper for writing object names in YAML text, quotes and escapes
+/// names that can't be used as plain (unquoted) YAML scalars
+    std::string CONDUIT_API yaml_object_name(const std::string &name);
+
 
 //-----------------------------------------------------------------------------
 /// fmt style string formatting helpers
-- 
2.43.0


From de8247787e57db89e73e796a6f14f1c3c841dce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:58 +0000
Subject: [PATCH 025/108] fix: JSON numbers are parsed in full precision

---
 src/libs/conduit/conduit_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 60b2d72..5bb41dd 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -125,7 +125,7 @@ public:
   {
   public:
       
-    static const conduit_rapidjson::ParseFlag RAPIDJSON_PARSE_OPTS = conduit_rapidjson::kParseNoFlags;
+    static const conduit_rapidjson::ParseFlag RAPIDJSON_PARSE_OPTS = conduit_rapidjson::kParseFullPrecisionFlag;
     
     static index_t json_to_numeric_dtype(const conduit_rapidjson::Value &jvalue);
     
-- 
2.43.0


From e8162f5b83980fe2ab4f3b5b4f90552e81f18c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:34 +0000
Subject: [PATCH 026/108] fix: conduit_json inline strings are not unescaped
 twice

---
 src/libs/conduit/conduit_generator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 5bb41dd..d0deb70 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -958,8 +958,9 @@ Generator::Parser::JSON::parse_inline_leaf(const conduit_rapidjson::Value &jvalu
     {
         if(node.dtype().id() == DataType::CHAR8_STR_ID)
         {
+            // note: the JSON parser already resolved escape sequences
             std::string sval(jvalue.GetString());
-            node.set(utils::unescape_special_chars(sval));
+            node.set(sval);
         }
         else
         {
-- 
2.43.0


From 9aa1826b8f0fc5c58c2c51409201d4d1b390ed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:34 +0000
Subject: [PATCH 027/108] fix: conduit_json inline nan and inf scalars can be
 read back

---
 src/libs/conduit/conduit_generator.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index d0deb70..c77c301 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -962,6 +962,16 @@ Generator::Parser::JSON::parse_inline_leaf(const conduit_rapidjson::Value &jvalu
             std::string sval(jvalue.GetString());
             node.set(sval);
         }
+        // we write nan and inf as strings
+        else if(node.dtype().is_floating_point() &&
+                string_is_double(jvalue.GetString()))
+        {
+            float64 fval = string_to_double(jvalue.GetString());
+            if(node.dtype().is_float32())
+                node.set((float32)fval);
+            else
+                node.set(fval);
+        }
         else
         {
              // JSON type incompatible with char8_str
-- 
2.43.0


From 871bc0a800788a2ecd25b6420bbf9b90e133d3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:52 +0000
Subject: [PATCH 028/108] fix: HDF5 files are closed when a read or write of a
 file path fails

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 42 ++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 40c0a8e..826ab03 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -383,6 +383,36 @@ private:
     bool          active;
 };
 
+//-----------------------------------------------------------------------------
+// Closes a HDF5 file when an error is thrown while it is in use.
+//-----------------------------------------------------------------------------
+class HDF5FileErrorCloser
+{
+public:
+        HDF5FileErrorCloser(hid_t file_id)
+        :  h5_file_id(file_id)
+        {
+            // empty
+        }
+
+       ~HDF5FileErrorCloser()
+        {
+            if(h5_file_id >= 0)
+            {
+                H5Fclose(h5_file_id);
+            }
+        }
+
+        // all went well, the file will be closed by the caller
+        void release()
+        {
+            h5_file_id = -1;
+        }
+
+private:
+    hid_t h5_file_id;
+};
+
 //-----------------------------------------------------------------------------
 // helper method decls
 //-----------------------------------------------------------------------------
@@ -3621,11 +3651,15 @@ hdf5_write(const Node &node,
         h5_file_id = hdf5_create_file(file_path);
     }
 
+    HDF5FileErrorCloser closer(h5_file_id);
+
     hdf5_write(node,
                h5_file_id,
                hdf5_path,
                opts);
 
+    closer.release();
+
     // close the hdf5 file
     CONDUIT_CHECK_HDF5_ERROR(H5Fclose(h5_file_id),
                              "Error closing HDF5 file: " << file_path);
@@ -3766,11 +3800,15 @@ hdf5_read(const std::string &file_path,
     // open the hdf5 file for reading
     hid_t h5_file_id = hdf5_open_file_for_read(file_path);
 
+    HDF5FileErrorCloser closer(h5_file_id);
+
     hdf5_read(h5_file_id,
               hdf5_path,
               opts,
               node);
 
+    closer.release();
+
     // close the hdf5 file
     CONDUIT_CHECK_HDF5_ERROR(H5Fclose(h5_file_id),
                              "Error closing HDF5 file: " << file_path);
@@ -3911,11 +3949,15 @@ hdf5_read_info(const std::string &file_path,
     // open the hdf5 file for reading
     hid_t h5_file_id = hdf5_open_file_for_read(file_path);
 
+    HDF5FileErrorCloser closer(h5_file_id);
+
     hdf5_read_info(h5_file_id,
               hdf5_path,
               opts,
               node);
 
+    closer.release();
+
     // close the hdf5 file
     CONDUIT_CHECK_HDF5_ERROR(H5Fclose(h5_file_id),
                              "Error closing HDF5 file: " << file_path);
-- 
2.43.0


From 79f077afc1a095f0d2940a62d226d953f65b2ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:54 +0000
Subject: [PATCH 029/108] fix: writing an empty node over a HDF5 dataset is
 reported as incompatible and leaves nothing open

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 826ab03..b9dd068 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -1017,6 +1017,19 @@ check_if_conduit_leaf_is_compatible_with_hdf5_obj(const DataType &dtype,
                 res = false;
             }
         }
+        else if(dtype.is_empty())
+        {
+            // an empty node is only compatible with a dataset with a
+            // H5S_NULL data space
+            std::ostringstream oss;
+            oss << "Conduit Node (empty) at path '" << ref_path << "'"
+                << " is not compatible with given HDF5 Dataset at path"
+                << " '" << ref_path << "'";
+
+            incompat_details = oss.str();
+
+            res = false;
+        }
         else
         {
             // get the hdf5 datatype that matchs the conduit dtype
-- 
2.43.0


From e93a79ba6c9ae4964268c39fc7b365208de36665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:41 +0000
Subject: [PATCH 030/108] fix: IOHandle::list_child_names gives an empty list
 for a HDF5 path that does not exist

---
 src/libs/relay/conduit_relay_io_handle.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_handle.cpp b/src/libs/relay/conduit_relay_io_handle.cpp
index 53d42d4..1d5b26c 100644
--- a/src/libs/relay/conduit_relay_io_handle.cpp
+++ b/src/libs/relay/conduit_relay_io_handle.cpp
@@ -782,7 +782,12 @@ HDF5Handle::list_child_names(const std::string &path,
 {
     // note: wrong mode errors are handled before dispatch to interface
 
-    hdf5_group_list_child_names(m_h5_id, path, res);
+    // a path that does not exist has no children
+    res.clear();
+    if(path == "/" || hdf5_has_path(m_h5_id, path))
+    {
+        hdf5_group_list_child_names(m_h5_id, path, res);
+    }
 }
 
 //-----------------------------------------------------------------------------
-- 
2.43.0


From 35b5b81b8e9308b76c33bb5ff0c8cb2cab4ff29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:41 +0000
Subject: [PATCH 031/108] fix: write only IOHandles of basic protocols keep the
 existing contents of the file

---
 src/libs/relay/conduit_relay_io_handle.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_handle.cpp b/src/libs/relay/conduit_relay_io_handle.cpp
index 1d5b26c..384df96 100644
--- a/src/libs/relay/conduit_relay_io_handle.cpp
+++ b/src/libs/relay/conduit_relay_io_handle.cpp
@@ -409,8 +409,9 @@ BasicHandle::open()
     // we start out with a blank slate
     if( utils::is_file( path() ) )
     {
-        // read if handle is not 'write' only and we aren't truncating
-        if( open_mode_read() && !open_mode_truncate() )
+        // read the existing contents if we aren't truncating
+        // (write only handles need them as well, writes are merged)
+        if( !open_mode_truncate() )
         {
             // read from file
             io::load(path(),
-- 
2.43.0


From fa587fe599570f27c4fc3d4b4d73c53973189b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:39 +0000
Subject: [PATCH 032/108] fix: a YAML document without content is read as an
 empty node

---
 src/libs/conduit/conduit_generator.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index c77c301..0832cc3 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -3105,11 +3105,18 @@ Generator::Parser::YAML::walk_pure_yaml_schema(Node *node,
     yaml_node_t     *yaml_node = parser.yaml_doc_root_ptr();
 
 
-    if(yaml_doc == NULL || yaml_node == NULL)
+    if(yaml_doc == NULL)
     {
         CONDUIT_ERROR("failed to fetch yaml document root");
     }
 
+    // a document without content is how an empty node is written
+    if(yaml_node == NULL)
+    {
+        node->reset();
+        return;
+    }
+
     walk_pure_yaml_schema(node,
                           schema,
                           yaml_doc,
-- 
2.43.0


From 9e3c48e7ca907a5190a1edbaaacf45b7208d8c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:41 +0000
Subject: [PATCH 033/108] fix: reading the root of a HDF5 file handle keeps the
 order of its children

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index b9dd068..d9c74d2 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -2695,8 +2695,16 @@ read_hdf5_group_into_conduit_node(hid_t hdf5_group_id,
     H5_index_t h5_grp_index_type = H5_INDEX_NAME;
 
     // check for creation order index using propertylist
+    // (the id may be a file, open its root group to get the propertylist)
 
-    hid_t h5_gc_plist = H5Gget_create_plist(hdf5_group_id);
+    hid_t h5_gc_plist = -1;
+    hid_t h5_self_id  = H5Gopen(hdf5_group_id, ".", H5P_DEFAULT);
+
+    if( CONDUIT_HDF5_VALID_ID(h5_self_id) )
+    {
+        h5_gc_plist = H5Gget_create_plist(h5_self_id);
+        H5Gclose(h5_self_id);
+    }
 
     if( CONDUIT_HDF5_VALID_ID(h5_gc_plist) )
     {
-- 
2.43.0


From b672da4e83bb5a6705b83f3a9ea9f037b31975b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:31 +0000
Subject: [PATCH 034/108] fix: HDF5 options of a failing call do not stay in
 effect

---
 src/libs/relay/conduit_relay_io.cpp        | 28 ++++++++++++++++++++--
 src/libs/relay/conduit_relay_io_handle.cpp | 28 ++++++++++++++++++++--
 2 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io.cpp b/src/libs/relay/conduit_relay_io.cpp
index 0d5e891..15514d7 100644
--- a/src/libs/relay/conduit_relay_io.cpp
+++ b/src/libs/relay/conduit_relay_io.cpp
@@ -373,7 +373,19 @@ save(const Node &node,
             hdf5_set_options(options["hdf5"]);
         }
 
-        hdf5_save(node,path,options);
+        try
+        {
+            hdf5_save(node,path,options);
+        }
+        catch(...)
+        {
+            // restore the options before passing on the error
+            if(!prev_options.dtype().is_empty())
+            {
+                hdf5_set_options(prev_options);
+            }
+            throw;
+        }
 
         if(!prev_options.dtype().is_empty())
         {
@@ -500,7 +512,19 @@ save_merged(const Node &node,
             hdf5_set_options(options["hdf5"]);
         }
 
-        hdf5_append(node,path,options);
+        try
+        {
+            hdf5_append(node,path,options);
+        }
+        catch(...)
+        {
+            // restore the options before passing on the error
+            if(!prev_options.dtype().is_empty())
+            {
+                hdf5_set_options(prev_options);
+            }
+            throw;
+        }
 
         if(!prev_options.dtype().is_empty())
         {
diff --git a/src/libs/relay/conduit_relay_io_handle.cpp b/src/libs/relay/conduit_relay_io_handle.cpp
index 384df96..c87bba6 100644
--- a/src/libs/relay/conduit_relay_io_handle.cpp
+++ b/src/libs/relay/conduit_relay_io_handle.cpp
@@ -723,7 +723,19 @@ HDF5Handle::write(const Node &node,
         hdf5_set_options(options()["hdf5"]);
     }
 
-    hdf5_write(node,m_h5_id, opts);
+    try
+    {
+        hdf5_write(node,m_h5_id, opts);
+    }
+    catch(...)
+    {
+        // restore the options before passing on the error
+        if(!prev_options.dtype().is_empty())
+        {
+            hdf5_set_options(prev_options);
+        }
+        throw;
+    }
 
     if(!prev_options.dtype().is_empty())
     {
@@ -759,7 +771,19 @@ HDF5Handle::write(const Node &node,
         hdf5_set_options(options()["hdf5"]);
     }
 
-    hdf5_write(node,m_h5_id,path,opts);
+    try
+    {
+        hdf5_write(node,m_h5_id,path,opts);
+    }
+    catch(...)
+    {
+        // restore the options before passing on the error
+        if(!prev_options.dtype().is_empty())
+        {
+            hdf5_set_options(prev_options);
+        }
+        throw;
+    }
 
     if(!prev_options.dtype().is_empty())
     {
-- 
2.43.0


From 5bcdd7a31b60659646856331bccbb542e78a3c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:52 +0000
Subject: [PATCH 035/108] fix: save_merged to a Silo file merges with what the
 file holds

---
 src/libs/relay/conduit_relay_io.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io.cpp b/src/libs/relay/conduit_relay_io.cpp
index 15514d7..a41e97a 100644
--- a/src/libs/relay/conduit_relay_io.cpp
+++ b/src/libs/relay/conduit_relay_io.cpp
@@ -538,9 +538,16 @@ save_merged(const Node &node,
     else if( protocol == "conduit_silo")
     {
 #ifdef CONDUIT_RELAY_IO_SILO_ENABLED
+        // check for ":" split, the file is what may already exist
+        std::string file_path;
+        std::string silo_obj_base;
+        conduit::utils::split_file_path(path,
+                                        std::string(":"),
+                                        file_path,
+                                        silo_obj_base);
         Node n;
         // support case where the path is initially empty
-        if(utils::is_file(path))
+        if(utils::is_file(file_path))
         {
             silo_read(path,n);
         }
-- 
2.43.0


From cfd89656c713d22e5a8f6a2db558394e578a5a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:10 +0000
Subject: [PATCH 036/108] fix: HDF5 objects are closed when reading or writing
 them fails

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 57 ++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index d9c74d2..709ebcc 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -413,6 +413,39 @@ private:
     hid_t h5_file_id;
 };
 
+//-----------------------------------------------------------------------------
+// Closes a HDF5 object (group or dataset) when an error is thrown while it
+// is in use. An object that stays open keeps its file open.
+//-----------------------------------------------------------------------------
+class HDF5ObjectErrorCloser
+{
+public:
+        HDF5ObjectErrorCloser(const hid_t &obj_id)
+        :  h5_obj_id(obj_id),
+           active(true)
+        {
+            // empty
+        }
+
+       ~HDF5ObjectErrorCloser()
+        {
+            if(active && h5_obj_id >= 0)
+            {
+                H5Oclose(h5_obj_id);
+            }
+        }
+
+        // all went well, the object will be closed by the caller
+        void release()
+        {
+            active = false;
+        }
+
+private:
+    const hid_t &h5_obj_id;
+    bool         active;
+};
+
 //-----------------------------------------------------------------------------
 // helper method decls
 //-----------------------------------------------------------------------------
@@ -1975,11 +2008,15 @@ write_conduit_leaf_to_hdf5_group(const Node &node,
 
     std::string chld_ref_path = join_ref_paths(ref_path,hdf5_dset_name);
     // write the data
+    HDF5ObjectErrorCloser closer(h5_child_id);
+
     write_conduit_leaf_to_hdf5_dataset(node,
                                        chld_ref_path,
                                        h5_child_id,
                                        opts);
 
+    closer.release();
+
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Dclose(h5_child_id),
                                                     hdf5_group_id,
                                                     ref_path,
@@ -2151,11 +2188,15 @@ write_conduit_node_children_to_hdf5_group(const Node &node,
             }
 
             // traverse
+            HDF5ObjectErrorCloser closer(h5_child_id);
+
             write_conduit_node_children_to_hdf5_group(child,
                                                       ref_path,
                                                       h5_child_id,
                                                       opts);
 
+            closer.release();
+
             CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Gclose(h5_child_id),
                                                             hdf5_group_id,
                                                             ref_path,
@@ -2573,12 +2614,16 @@ h5l_iterate_traverse_op_func(hid_t hdf5_id,
                                                    *h5_od->node,
                                                    std::string(hdf5_path));
 
+                HDF5ObjectErrorCloser closer(h5_group_id);
+
                 read_hdf5_group_into_conduit_node(h5_group_id,
                                                   chld_ref_path,
                                                   h5_od->metadata_only,
                                                   *h5_od->opts,
                                                   *chld_node_ptr);
 
+                closer.release();
+
                 // close the group
                 CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Gclose(h5_group_id),
                                                                 hdf5_id,
@@ -2609,12 +2654,16 @@ h5l_iterate_traverse_op_func(hid_t hdf5_id,
                                                    << hdf5_id
                                                    << " path:"
                                                    << hdf5_path);
+            HDF5ObjectErrorCloser closer(h5_dset_id);
+
             read_hdf5_dataset_into_conduit_node(h5_dset_id,
                                                 chld_ref_path,
                                                 h5_od->metadata_only,
                                                 *h5_od->opts,
                                                 *chld_node_ptr);
 
+            closer.release();
+
             // close the dataset
             CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Dclose(h5_dset_id),
                                                             hdf5_id,
@@ -3784,12 +3833,16 @@ hdf5_read(hid_t hdf5_id,
                             "Failed to fetch HDF5 object from: "
                              << hdf5_id << ":" << hdf5_path);
 
+    HDF5ObjectErrorCloser closer(h5_child_obj);
+
     read_hdf5_tree_into_conduit_node(h5_child_obj,
                                      hdf5_path,
                                      false,
                                      opts,
                                      dest);
 
+    closer.release();
+
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Oclose(h5_child_obj),
                                                     hdf5_id,
                                                     hdf5_path,
@@ -3933,12 +3986,16 @@ hdf5_read_info(hid_t hdf5_id,
                             "Failed to fetch HDF5 object from: "
                              << hdf5_id << ":" << hdf5_path);
 
+    HDF5ObjectErrorCloser closer(h5_child_obj);
+
     read_hdf5_tree_into_conduit_node(h5_child_obj,
                                      hdf5_path,
                                      true,
                                      opts,
                                      dest);
 
+    closer.release();
+
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Oclose(h5_child_obj),
                                                     hdf5_id,
                                                     hdf5_path,
-- 
2.43.0


From 8b9412b0985038c2e084c14f38eec3fe89534b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:10 +0000
Subject: [PATCH 037/108] fix: HDF5 reads with negative or too few offsets,
 strides or sizes are rejected

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 31 +++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 709ebcc..1738b59 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -2900,15 +2900,44 @@ fill_dataset_opts(const std::string & ref_path, const Node & inopts,
     index_t_array stride = conduit_node_to_argarray(filled_opts, "strides", "stride", rank, 1);
     index_t_array readsz = conduit_node_to_argarray(filled_opts, "sizes", "size", rank, (int)is_scalar);
 
+    if (offset.number_of_elements() < rank ||
+        stride.number_of_elements() < rank ||
+        readsz.number_of_elements() < rank)
+    {
+        CONDUIT_HDF5_ERROR(ref_path,
+            "Error reading HDF5 Dataset with options:"
+            << inopts.to_yaml() <<
+            "`offset`, `stride` and `size` need a value for each of the "
+            << rank << " dimensions of the dataset.");
+    }
+
     for (int d = 0; d < rank; ++d)
     {
-        if (stride[d] == 0)
+        if (stride[d] < 1)
         {
             CONDUIT_HDF5_ERROR(ref_path,
                 "Error reading HDF5 Dataset with options:"
                 << inopts.to_yaml() <<
                 "`stride` must be greater than zero.");
         }
+
+        if (offset[d] < 0 || readsz[d] < 0)
+        {
+            CONDUIT_HDF5_ERROR(ref_path,
+                "Error reading HDF5 Dataset with options:"
+                << inopts.to_yaml() <<
+                "`offset` and `size` must not be negative.");
+        }
+
+        if (offset[d] > nsizes_array[d] && !is_scalar)
+        {
+            CONDUIT_HDF5_ERROR(ref_path,
+                "Error reading HDF5 Dataset with options:"
+                << inopts.to_yaml() <<
+                "Cannot read using offset (" << offset[d] << ")"
+                << " greater than the number of entries in"
+                << " the HDF5 dataset (" << nsizes_array[d] << ")");
+        }
     }
 
     index_t readcount = calculate_readsize(readsz, rank, nsizes_array, offset, stride);
-- 
2.43.0


From 2deb076ad409efb7f36e9bcfb44d4a9623658f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:10 +0000
Subject: [PATCH 038/108] fix: writing a part at the start of a fixed HDF5
 dataset writes only that part

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 1738b59..6a26e2a 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -1752,7 +1752,16 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
 
     // if the layout is fixed and no offset/stride is supplied,
     // the entire array is overwriten
-    if (dataset_max_dims[0] != H5S_UNLIMITED && offset == 0 && stride == 1)
+    // (a write of the first part of the array supplies an offset or stride)
+    bool whole_array = offset == 0 && stride == 1;
+    if( whole_array &&
+        (opts.has_child("offset") || opts.has_child("stride")) &&
+        dt.is_number() )
+    {
+        whole_array = dataset_dim == (hsize_t)dt.number_of_elements();
+    }
+
+    if (dataset_max_dims[0] != H5S_UNLIMITED && whole_array)
     {
 
         // if the node is compact, we can write directly from its data ptr
-- 
2.43.0


From b66dd3c98098eac677c4b9d62330b6169212d5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:32 +0000
Subject: [PATCH 039/108] fix: a HDF5 write that is rejected for its stride
 does not create a dataset

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 6a26e2a..451d6c9 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -1945,6 +1945,12 @@ write_conduit_leaf_to_hdf5_group(const Node &node,
                                  const std::string &hdf5_dset_name,
                                  const Node &opts)
 {
+    // check the options before anything is created
+    if(opts.has_child("stride") && opts["stride"].to_int64() == 0)
+    {
+        CONDUIT_ERROR("Stride must be greater than zero.");
+    }
+
     // data set case ...
     // check if the dataset exists
     H5O_info_t h5_obj_info;
-- 
2.43.0


From e6866f7ef5fee4d360cb67b0b7694b24c7b969aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:56 +0000
Subject: [PATCH 040/108] fix: MPI messages with schema are right for nodes
 that are a part of a larger compact node

---
 src/libs/relay/conduit_relay_mpi.cpp | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index 330381a..d6fde79 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -531,15 +531,8 @@ send_using_schema(const Node &node, int dest, int tag, MPI_Comm comm)
 {     
     Schema s_data_compact;
     
-    // schema will only be valid if compact and contig
-    if( node.is_compact() && node.is_contiguous())
-    {
-        s_data_compact = node.schema();
-    }
-    else
-    {
-        node.schema().compact_to(s_data_compact);
-    }
+    // the data is sent compact, without the offset it may have in `node`
+    node.schema().compact_to(s_data_compact);
     
     std::string snd_schema_json = s_data_compact.to_json();
         
@@ -1834,7 +1827,10 @@ broadcast_using_schema(Node &node,
            node.is_compact() && 
            node.is_contiguous())
         {
-            bcast_buffers["schema"] = node.schema().to_json();
+            // the data is sent compact, without the offset it may have in `node`
+            Schema s_compact;
+            node.schema().compact_to(s_compact);
+            bcast_buffers["schema"] = s_compact.to_json();
         }
         else
         {
@@ -2093,15 +2089,8 @@ communicate_using_schema::execute_internal()
         {
             Schema s_data_compact;
             const Node &node = *operations[i].node[0];
-            // schema will only be valid if compact and contig
-            if( node.is_compact() && node.is_contiguous())
-            {
-                s_data_compact = node.schema();
-            }
-            else
-            {
-                node.schema().compact_to(s_data_compact);
-            }
+            // the data is sent compact, without the offset it may have in `node`
+            node.schema().compact_to(s_data_compact);
     
             std::string snd_schema_json = s_data_compact.to_json();
         
-- 
2.43.0


From b02bfc294dcc0cdf3ac9e4e7bb5af60efb989350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:56 +0000
Subject: [PATCH 041/108] fix: probing for the MPI tag limit does not disturb
 pending receives

---
 src/libs/relay/conduit_relay_mpi.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index d6fde79..d10379a 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -368,9 +368,11 @@ public:
      *
      * @note We probe to determine the value since query is not as reliable across MPI distributions.
      */
-    static int upper_bound(MPI_Comm comm)
+    static int upper_bound(MPI_Comm /*comm*/)
     {
-      return probe(comm);
+      // The limit is the same for all communicators. Probe with messages that
+      // can not be mixed up with messages and receives of the caller's one.
+      return probe(MPI_COMM_SELF);
     }
 
 private:
-- 
2.43.0


From 328246bff96ae9c43aa67d8a6a2a4fbfd3d78f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:34 +0000
Subject: [PATCH 042/108] fix: MPI gather and reductions send the data of nodes
 that start at an offset

---
 src/libs/relay/conduit_relay_mpi.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index d10379a..775d7df 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -839,7 +839,8 @@ reduce(const Node &snd_node,
     // we can only reduce leaf types 
     if(snd_node.is_compact())
     {
-        snd_ptr = const_cast<void*>(snd_node.data_ptr());
+        // (the data may start at an offset)
+        snd_ptr = const_cast<void*>(snd_node.element_ptr(0));
     }
     else
     {
@@ -918,7 +919,8 @@ all_reduce(const Node &snd_node,
     // we can only reduce leaf types 
     if(snd_node.is_compact())
     {
-        snd_ptr = const_cast<void*>(snd_node.data_ptr());
+        // (the data may start at an offset)
+        snd_ptr = const_cast<void*>(snd_node.element_ptr(0));
     }
     else
     {
@@ -1357,7 +1359,6 @@ gather(Node &send_node,
     if(snd_ptr != NULL && 
        send_node.is_compact() )
     {
-        snd_ptr  = send_node.data_ptr();
         snd_size = send_node.total_bytes_compact();
     }
     else
-- 
2.43.0


From c68877003dfda09255b99d4b48bd9c1977d042f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:56 +0000
Subject: [PATCH 043/108] fix: broadcast_using_schema into a leaf with more
 elements than are sent

---
 src/libs/relay/conduit_relay_mpi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index 775d7df..5e98581 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -1900,7 +1900,8 @@ broadcast_using_schema(Node &node,
         {
             
             bcast_data_ptr  = node.contiguous_data_ptr();
-            bcast_data_size = static_cast<int>(node.total_bytes_compact());
+            // `node` may hold more elements than are sent
+            bcast_data_size = static_cast<int>(bcast_schema.total_bytes_compact());
             
             if( bcast_data_ptr == NULL ||
                 ! node.is_compact() )
-- 
2.43.0


From d965ad893e6b71ad9b5f136f26cd8bd8852182cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:46 +0000
Subject: [PATCH 044/108] fix: o2mrelation::compact_to with one 'one', empty
 'one's or several data arrays

---
 src/libs/blueprint/conduit_blueprint_o2mrelation.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
index 6a3bfb6..d9b9512 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
@@ -210,10 +210,11 @@ void compact_to(const conduit::Node &o2mrelation,
         }
 
         conduit::Node o2m_temp, res_temp;
+        const index_t num_ones = o2miter.elements(conduit::blueprint::o2mrelation::ONE);
         index_t curr_index = 0, curr_offset = 0;
-        while(o2miter.has_next(conduit::blueprint::o2mrelation::ONE))
+        for(index_t one_index = 0; one_index < num_ones; one_index++)
         {
-            const index_t one_index = o2miter.next(conduit::blueprint::o2mrelation::ONE);
+            o2miter.to(one_index, conduit::blueprint::o2mrelation::ONE);
 
             res_temp.set_external(offsets_dtype, res_offsets.element_ptr(one_index));
             o2m_temp.set(curr_offset);
@@ -225,7 +226,7 @@ void compact_to(const conduit::Node &o2mrelation,
                 o2miter.next(conduit::blueprint::o2mrelation::MANY);
                 const index_t data_index = o2miter.index(conduit::blueprint::o2mrelation::DATA);
 
-                for(index_t pi = 0; pi < (index_t)o2m_paths_curr.size(); pi++, curr_index++)
+                for(index_t pi = 0; pi < (index_t)o2m_paths_curr.size(); pi++)
                 {
                     const conduit::Node &o2m_data = o2mrelation[o2m_paths_curr[pi]];
                     conduit::Node &res_data = res[o2m_paths_curr[pi]];
@@ -235,6 +236,7 @@ void compact_to(const conduit::Node &o2mrelation,
                     res_temp.set_external(data_dtype, (void*)res_data.element_ptr(curr_index));
                     o2m_temp.to_data_type(data_dtype.id(), res_temp);
                 }
+                curr_index++;
             }
 
             curr_offset += o2miter.elements(conduit::blueprint::o2mrelation::MANY);
-- 
2.43.0


From aca4bdba9363f39779318f111da3caa8b8513104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:46 +0000
Subject: [PATCH 045/108] fix: O2MIterator looks up every item of a 'one' in
 indices, not only the first

---
 .../blueprint/conduit_blueprint_o2mrelation_iterator.cpp   | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
index 3e9cc9f..9e58179 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
@@ -426,13 +426,12 @@ O2MIterator::index(index_t one_index, index_t many_index, IndexType itype) const
             offset = m_offsets_node->as_index_t_accessor()[one_index];
         }
 
-        index = offset;
+        // sizes and offsets refer to entries of 'indices'
+        index = offset + (many_index - 1);
         if(m_indices_node)
         {
-            index = m_indices_node->as_index_t_accessor()[offset];
+            index = m_indices_node->as_index_t_accessor()[index];
         }
-
-        index += (many_index - 1);
     }
     else if(itype == ONE)
     {
-- 
2.43.0


From bcf795a8b718d68b93e196238eee04dbf531c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:21 +0000
Subject: [PATCH 046/108] fix: O2MIterator skips 'one's without items

---
 ...conduit_blueprint_o2mrelation_iterator.cpp | 42 ++++++++++++++++---
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
index 9e58179..e687551 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
@@ -152,7 +152,12 @@ O2MIterator::has_next(IndexType itype) const
 
     if(itype == DATA)
     {
-        is_next = has_next(ONE) || has_next(MANY);
+        // ones without any items hold no data
+        is_next = has_next(MANY);
+        for(index_t oi = m_one_index + 1; !is_next && oi < elements(0, ONE); oi++)
+        {
+            is_next = elements(oi, MANY) > 0;
+        }
     }
     else if(itype == ONE)
     {
@@ -183,6 +188,11 @@ O2MIterator::next(IndexType itype)
         {
             m_many_index = 1;
             m_one_index++;
+            while(m_one_index < elements(0, ONE) - 1 &&
+                  elements(m_one_index, MANY) == 0)
+            {
+                m_one_index++;
+            }
         }
 
         nindex = index(m_one_index, m_many_index, DATA);
@@ -222,7 +232,13 @@ O2MIterator::peek_next(IndexType itype) const
         }
         else
         {
-            nindex = index(m_one_index + 1, 1, DATA);
+            index_t one_index = m_one_index + 1;
+            while(one_index < elements(0, ONE) - 1 &&
+                  elements(one_index, MANY) == 0)
+            {
+                one_index++;
+            }
+            nindex = index(one_index, 1, DATA);
         }
     }
     else if(itype == ONE)
@@ -253,7 +269,8 @@ O2MIterator::to_front(IndexType itype)
     }
     else // if(itype == MANY)
     {
-        m_many_index = 0;
+        // if there are no items there is nothing left to visit in this one
+        m_many_index = (elements(m_one_index, MANY) > 0) ? 0 : 1;
     }
 }
 
@@ -269,7 +286,11 @@ O2MIterator::has_previous(IndexType itype) const
 
     if(itype == DATA)
     {
-        is_prev = has_previous(ONE) || has_previous(MANY);
+        is_prev = has_previous(MANY);
+        for(index_t oi = m_one_index - 1; !is_prev && oi >= 0; oi--)
+        {
+            is_prev = elements(oi, MANY) > 0;
+        }
     }
     else if(itype == ONE)
     {
@@ -298,8 +319,12 @@ O2MIterator::previous(IndexType itype)
         }
         else
         {
-            m_many_index = elements(m_one_index - 1, MANY);
             m_one_index--;
+            while(m_one_index > 0 && elements(m_one_index, MANY) == 0)
+            {
+                m_one_index--;
+            }
+            m_many_index = elements(m_one_index, MANY);
         }
 
         pindex = index(m_one_index, m_many_index, DATA);
@@ -330,7 +355,12 @@ O2MIterator::peek_previous(IndexType itype) const
         }
         else
         {
-            pindex = index(m_one_index - 1, elements(m_one_index - 1, MANY), DATA);
+            index_t one_index = m_one_index - 1;
+            while(one_index > 0 && elements(one_index, MANY) == 0)
+            {
+                one_index--;
+            }
+            pindex = index(one_index, elements(one_index, MANY), DATA);
         }
     }
     else if(itype == ONE)
-- 
2.43.0


From 783d7deb91805e9ded0675e63ac543f139d577f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:21 +0000
Subject: [PATCH 047/108] fix: mcarray conversions of components whose name
 contains a slash

---
 src/libs/blueprint/conduit_blueprint_mcarray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mcarray.cpp b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
index 3f31c7d..fab517e 100644
--- a/src/libs/blueprint/conduit_blueprint_mcarray.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
@@ -173,7 +173,7 @@ to_contiguous(const conduit::Node &src,
         curr_dt.set_offset(curr_offset);
         
         // put the dtype into our schema with the correct name
-        s_dest[name] = curr_dt;
+        s_dest.add_child(name).set(curr_dt);
         
         // update the offset for the next component
         curr_offset += elem_bytes * curr_dt.number_of_elements();
@@ -232,7 +232,7 @@ to_interleaved(const conduit::Node &src,
         curr_dt.set_offset(curr_offset);
         
         // put the dtype into our schema with the correct name
-        s_dest[name] = curr_dt;
+        s_dest.add_child(name).set(curr_dt);
         
         // update the offset for the next component
         curr_offset += elem_bytes;
-- 
2.43.0


From a76b5747fc76e7fb392904145c4139fce14ec603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:21 +0000
Subject: [PATCH 048/108] fix: mcarray::verify accepted components of length
 zero next to longer ones

---
 src/libs/blueprint/conduit_blueprint_mcarray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mcarray.cpp b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
index fab517e..54e8468 100644
--- a/src/libs/blueprint/conduit_blueprint_mcarray.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
@@ -76,7 +76,7 @@ bool verify(const conduit::Node &n,
     }
 
     NodeConstIterator itr = n.children();
-    index_t num_elems = 0;
+    index_t num_elems = -1;
 
     while(itr.has_next())
     {
@@ -86,7 +86,7 @@ bool verify(const conduit::Node &n,
         // make sure we have a number
         if(chld.dtype().is_number())
         {
-            if(num_elems == 0)
+            if(num_elems < 0)
             {
                 num_elems = chld.dtype().number_of_elements();
             }
-- 
2.43.0


From 29f983ce62c4509f6c35ef3fe2d5f7d5234f1939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:21 +0000
Subject: [PATCH 049/108] fix: table::verify raised an error for a column
 without components

---
 src/libs/blueprint/conduit_blueprint_table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_table.cpp b/src/libs/blueprint/conduit_blueprint_table.cpp
index 6acdd37..5f72df3 100644
--- a/src/libs/blueprint/conduit_blueprint_table.cpp
+++ b/src/libs/blueprint/conduit_blueprint_table.cpp
@@ -50,7 +50,7 @@ verify_table_values(const Node &n, Node &info)
         if(n_col.dtype().is_list() || n_col.dtype().is_object())
         {
             this_res = blueprint::mcarray::verify(n_col, i_col);
-            this_num_elems = (res) ? n_col[0].dtype().number_of_elements() : 0;
+            this_num_elems = (this_res && n_col.number_of_children() > 0) ? n_col[0].dtype().number_of_elements() : 0;
         }
         else if(n_col.dtype().is_empty())
         {
-- 
2.43.0


From 2695db77289a36e789c15593bad10d6f347d76e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:10 +0000
Subject: [PATCH 050/108] fix: o2mrelation::compact_to overwrote 64-bit integer
 data of its source

---
 src/libs/blueprint/conduit_blueprint_o2mrelation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
index d9b9512..22730b4 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
@@ -217,6 +217,8 @@ void compact_to(const conduit::Node &o2mrelation,
             o2miter.to(one_index, conduit::blueprint::o2mrelation::ONE);
 
             res_temp.set_external(offsets_dtype, res_offsets.element_ptr(one_index));
+            // let go of the source data first, set() would write into it
+            o2m_temp.reset();
             o2m_temp.set(curr_offset);
             o2m_temp.to_data_type(offsets_dtype.id(), res_temp);
 
-- 
2.43.0


From c07fc540130f55c8ce90c9a9c58ed1ad7ef3b1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:24 +0000
Subject: [PATCH 051/108] fix: structured to_unstructured ignored the offsets
 and strides of strided topologies

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index f801220..61ebcf5 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -1247,6 +1247,27 @@ convert_topology_to_unstructured(const std::string &base_type,
     }
     index_t indices_per_elem = (index_t) pow(2, csys_axes.size());
 
+    // Where the vertices are in the coordset. The whole coordset is used
+    // unless a strided structured topology selects a part of it.
+    index_t voffsets[3] = {0, 0, 0};
+    index_t vstrides[3] = {1, vdims_axes[0], vdims_axes[0] * vdims_axes[1]};
+    if(is_base_structured && topo.has_path("elements/dims/strides"))
+    {
+        const index_t_accessor strides = topo["elements/dims/strides"].value();
+        for(index_t d = 0; d < (index_t)csys_axes.size() && d < strides.number_of_elements(); d++)
+        {
+            vstrides[d] = strides[d];
+        }
+    }
+    if(is_base_structured && topo.has_path("elements/dims/offsets"))
+    {
+        const index_t_accessor offsets = topo["elements/dims/offsets"].value();
+        for(index_t d = 0; d < (index_t)csys_axes.size() && d < offsets.number_of_elements(); d++)
+        {
+            voffsets[d] = offsets[d];
+        }
+    }
+
     conduit::Node &conn_node = dest["elements/connectivity"];
     conn_node.set(DataType(int_dtype.id(), num_elems * indices_per_elem));
 
@@ -1267,7 +1288,11 @@ convert_topology_to_unstructured(const std::string &base_type,
             {
                 curr_vert[d] += (i & (index_t)pow(2, d)) >> d;
             }
-            grid_ijk_to_id(&curr_vert[0], &vdims_axes[0], v);
+            v = 0;
+            for(index_t d = 0; d < (index_t)csys_axes.size(); d++)
+            {
+                v += (curr_vert[d] + voffsets[d]) * vstrides[d];
+            }
 
             src_idx_node.set(v);
             dst_idx_node.set_external(int_dtype,
-- 
2.43.0


From 83007f9d6f7441f19532d4026f4d222dba5520d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:24 +0000
Subject: [PATCH 052/108] fix: topology cascade misread strided connectivity,
 polyhedra without offsets and polygons of over 32 points

---
 ...nduit_blueprint_mesh_topology_metadata.cpp | 53 +++++++++----------
 .../conduit_blueprint_mesh_utils.cpp          |  8 +++
 2 files changed, 32 insertions(+), 29 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp b/src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp
index f13ea68..eb4ac45 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp
@@ -850,9 +850,10 @@ private:
                 for(index_t i = 0; i < esizes.number_of_elements(); i++)
                     map32.sizes[i] = esizes[i];
 
-                if(topo->has_path("elements/offsets"))
+                // The input may not have offsets, dim_topos[3] does.
+                if(dim_topos[3].has_path("elements/offsets"))
                 {
-                    index_t_accessor offsets = topo->fetch_existing("elements/offsets").value();
+                    index_t_accessor offsets = dim_topos[3].fetch_existing("elements/offsets").value();
                     map32.offsets.resize(offsets.number_of_elements());
                     for(index_t i = 0; i < offsets.number_of_elements(); i++)
                         map32.offsets[i] = offsets[i];
@@ -1137,14 +1138,9 @@ private:
 
         conduit::execution::for_all<ParallelExec>(0, nelem, [&](index_t elem)
         {
-            constexpr size_t MAX_VERTS = 32;
-
-            // Get the element points, storing them in pts.
+            // Get the element points.
             index_t elem_size = sizes[elem];
             index_t elem_offset = offsets[elem];
-            index_t pts[MAX_VERTS];
-            for(index_t i = 0; i < elem_size; i++)
-                pts[i] = conn[elem_offset + i];
 
             // Make a unique id for each edge.
             for(index_t edge_index = 0; edge_index < elem_size; edge_index++)
@@ -1155,8 +1151,8 @@ private:
                 // Make the edge.
                 index_t next_edge_index = (edge_index + 1) % elem_size;
                 index_t edge[2];
-                edge[0] = pts[edge_index];
-                edge[1] = pts[next_edge_index];
+                edge[0] = conn[elem_offset + edge_index];
+                edge[1] = conn[elem_offset + next_edge_index];
                 ee_to_edge[elem_edge] = std::make_pair(edge[0], edge[1]);
 
                 // Store the edgeid.
@@ -1495,13 +1491,14 @@ TopologyMetadata::Implementation::initialize(const std::vector<std::pair<size_t,
     {
         if(topo_shape.is_polyhedral())
         {
-            const conduit::Node &subel = topo->fetch_existing("subelements");
+            const conduit::Node &subel = dim_topos[3].fetch_existing("subelements");
             const conduit::Node &sizes = subel.fetch_existing("sizes");
             dispatch_connectivity_ph(subel, sizes);
         }
         else
         {
-            const conduit::Node &conn = topo->fetch_existing("elements/connectivity");
+            // Use the copy: it is contiguous even when the source is strided.
+            const conduit::Node &conn = dim_topos[topo_shape.dim].fetch_existing("elements/connectivity");
             dispatch_connectivity(topo_shape, conn);
         }
     }
@@ -1722,32 +1719,30 @@ TopologyMetadata::Implementation::copy_topology(const conduit::Node &src_topo,
 
     // Make sure we have offsets if they are not there. The Conduit helper
     // routines make them in various precisions.
-    conduit::Node n_offsets;
-    if(!dest_topo.has_path("elements/offsets"))
+    const bool is_ph = shape.is_polyhedral();
+    if(!dest_topo.has_path("elements/offsets") ||
+       (is_ph && !dest_topo.has_path("subelements/offsets")))
     {
-        if(shape.is_polyhedral())
+        std::vector<conduit::Node *> made{dest_topo.fetch_ptr("elements/offsets")};
+        if(is_ph)
         {
-            conduit::Node &topo_suboffsets = dest_topo["subelements/offsets"];
-            topology::unstructured::generate_offsets(dest_topo,
-                                                     n_offsets,
-                                                     topo_suboffsets);
+            made.push_back(dest_topo.fetch_ptr("subelements/offsets"));
+            topology::unstructured::generate_offsets(dest_topo, *made[0], *made[1]);
         }
         else
         {
-            topology::unstructured::generate_offsets(dest_topo, n_offsets);
+            topology::unstructured::generate_offsets(dest_topo, *made[0]);
         }
 
         // Convert the types if needed.
-        conduit::Node &offsets = dest_topo["elements/offsets"];
-        if(n_offsets.dtype().id() != dest_type.id())
-        {
-            index_t nvalues = n_offsets.dtype().number_of_elements();
-            offsets.set(DataType(dest_type.id(), nvalues));
-            n_offsets.to_data_type(dest_type.id(), offsets);
-        }
-        else
+        for(conduit::Node *offsets : made)
         {
-            offsets.set(n_offsets);
+            if(offsets->dtype().id() != dest_type.id())
+            {
+                conduit::Node converted;
+                offsets->to_data_type(dest_type.id(), converted);
+                offsets->move(converted);
+            }
         }
     }
 }
diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index cec1bed..1ac7946 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -2547,6 +2547,10 @@ topology::unstructured::generate_offsets(const Node &topo,
                 es += topo_elem_size[ei];
             }
         }
+        else if(&dest_ele_offsets != &topo["elements/offsets"])
+        {
+            dest_ele_offsets.set_external(topo["elements/offsets"]);
+        }
         if(!subelem_offsets_exist)
         {
             index_t_accessor topo_subelem_size = topo["subelements/sizes"].value();
@@ -2562,6 +2566,10 @@ topology::unstructured::generate_offsets(const Node &topo,
                 ses += topo_subelem_size[ei];
             }
         }
+        else if(&dest_subele_offsets != &topo["subelements/offsets"])
+        {
+            dest_subele_offsets.set_external(topo["subelements/offsets"]);
+        }
     }
 }
 
-- 
2.43.0


From b311f4985253f32a3adb8c336232aab5594f0b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:17 +0000
Subject: [PATCH 053/108] fix: silo form of material sets misread material
 numbers that are not int and used unsigned or narrow slot ids

---
 .../conduit_blueprint_mesh_matset_xforms.cpp       | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp b/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
index b01006a..94ae7dc 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
@@ -81,7 +81,17 @@ to_silo(const conduit::Node &field,
         const float64 epsilon)
 {
     Node temp, data;
-    const DataType int_dtype = bputils::find_widest_dtype(matset, bputils::DEFAULT_INT_DTYPES);
+    // silo output holds slot ids, negative ones in the matlist: use a signed
+    // type, wide enough for them, whatever the matset uses for its integers
+    DataType int_dtype = bputils::find_widest_dtype(matset, bputils::DEFAULT_INT_DTYPES);
+    if(int_dtype.element_bytes() < 4)
+    {
+        int_dtype.set(DataType::int32(1));
+    }
+    else if(int_dtype.is_unsigned_integer())
+    {
+        int_dtype.set(DataType::int64(1));
+    }
     const DataType float_dtype = bputils::find_widest_dtype(matset, bputils::DEFAULT_FLOAT_DTYPE);
     // if matset_values is not empty, we will
     // apply the same xform to it as we do to the volume fractions.
@@ -1489,7 +1499,7 @@ to_silo(const conduit::Node &specset,
         CONDUIT_ASSERT(matset_vals_itr.name() == matmap_itr.name(), 
             "blueprint::mesh::specset::to_silo materials must be in the same order "
             "between passed specset and passed matset.");
-        matmap_map[matmap_entry.as_int()] = matmap_index;
+        matmap_map[matmap_entry.to_int()] = matmap_index;
         matmap_index ++;
     }
 
-- 
2.43.0


From 01e48002f148e2c621e30816cc8500c36b3a123a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:25 +0000
Subject: [PATCH 054/108] fix: root file detection took yaml with braces for
 json

---
 src/libs/relay/conduit_relay_io_identify_protocol.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_identify_protocol.cpp b/src/libs/relay/conduit_relay_io_identify_protocol.cpp
index 7b50ef6..ab17d63 100644
--- a/src/libs/relay/conduit_relay_io_identify_protocol.cpp
+++ b/src/libs/relay/conduit_relay_io_identify_protocol.cpp
@@ -156,7 +156,11 @@ identify_file_type(const std::string &path,
                 {
                    file_type = "yaml";
                 }
-                if(test_str.find("{") != std::string::npos)
+                // (yaml text may also contain "{", json text starts with it)
+                std::size_t start = test_str.find_first_not_of(" \t\r\n");
+                if(start != std::string::npos &&
+                   test_str.find("{") != std::string::npos &&
+                   (test_str[start] == '{' || test_str[start] == '['))
                 {
                    file_type = "json";
                 }
-- 
2.43.0


From 11f9a7a9deac312c057eaaabeb87e3406c12e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:25 +0000
Subject: [PATCH 055/108] fix: saving a single domain mesh overwrote the
 caller's domain id

---
 src/libs/relay/conduit_relay_io_blueprint.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libs/relay/conduit_relay_io_blueprint.cpp b/src/libs/relay/conduit_relay_io_blueprint.cpp
index 2fb3f9c..4268148 100644
--- a/src/libs/relay/conduit_relay_io_blueprint.cpp
+++ b/src/libs/relay/conduit_relay_io_blueprint.cpp
@@ -700,6 +700,14 @@ bool clean_mesh(const conduit::Node &data,
     {
       conduit::Node &dest_dom = output.append();
       dest_dom.set_external(data);
+      // note: domain ids may be re-written, so make sure this isn't
+      // set as external
+      if(dest_dom.has_path("state/domain_id"))
+      {
+          index_t dom_id = dest_dom["state/domain_id"].to_index_t();
+          dest_dom["state/domain_id"].reset();
+          dest_dom["state/domain_id"] = dom_id;
+      }
     }
   }
 
-- 
2.43.0


From 693119e01b4d55e56724f8ba8696f4b63f52e068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:39 +0000
Subject: [PATCH 056/108] fix: expanding %d in a root file's patterns dropped
 the two characters after it

---
 src/libs/relay/conduit_relay_io_blueprint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_blueprint.cpp b/src/libs/relay/conduit_relay_io_blueprint.cpp
index 4268148..6e735b4 100644
--- a/src/libs/relay/conduit_relay_io_blueprint.cpp
+++ b/src/libs/relay/conduit_relay_io_blueprint.cpp
@@ -194,7 +194,7 @@ public:
         {
             std::string res = pattern;
             res.replace(pattern_idx,
-                        4,
+                        2,
                         conduit_fmt::format("{:d}",idx));
             return res;
         }
-- 
2.43.0


From abb56be10597355d569b6e401df595655fdd0a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:27 +0000
Subject: [PATCH 057/108] fix: root only file sets of several domains could not
 be read back unless saved in the working directory

---
 src/libs/relay/conduit_relay_io_blueprint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_blueprint.cpp b/src/libs/relay/conduit_relay_io_blueprint.cpp
index 6e735b4..6b060f6 100644
--- a/src/libs/relay/conduit_relay_io_blueprint.cpp
+++ b/src/libs/relay/conduit_relay_io_blueprint.cpp
@@ -1670,7 +1670,7 @@ void write_mesh(const Node &mesh,
             else
             {
                 output_tree_pattern = "/domain_%06d/";
-                output_partition_pattern = root_filename + ":/domain_{domain:06d}";
+                output_partition_pattern = output_file_pattern + ":/domain_{domain:06d}";
 
                 //generate part map (we only need domain for this case)
                 output_partition_map["domain"].set(DataType::index_t(global_num_domains));
-- 
2.43.0


From c69ebb954e853b5e664ff60ea02f1671e3a8aad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:41 +0000
Subject: [PATCH 058/108] fix: write_mesh could not add a mesh to an hdf5 root
 file whose patterns have other lengths

---
 src/libs/relay/conduit_relay_io_blueprint.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/libs/relay/conduit_relay_io_blueprint.cpp b/src/libs/relay/conduit_relay_io_blueprint.cpp
index 6b060f6..e0c19a8 100644
--- a/src/libs/relay/conduit_relay_io_blueprint.cpp
+++ b/src/libs/relay/conduit_relay_io_blueprint.cpp
@@ -1793,6 +1793,20 @@ void write_mesh(const Node &mesh,
         }
 
         hnd.open(root_filename, file_protocol, open_opts);
+
+        // when another mesh is already in the root file, the patterns of the
+        // last mesh written may differ in length from the ones in the file,
+        // which some protocols can not overwrite in place
+        if(!opts_truncate && hnd.has_path("file_pattern"))
+        {
+            hnd.remove("file_pattern");
+        }
+
+        if(!opts_truncate && hnd.has_path("tree_pattern"))
+        {
+            hnd.remove("tree_pattern");
+        }
+
         hnd.write(root);
         hnd.close();
     }
-- 
2.43.0


From 9c098cbef8d5f65d7a9650f3a1a82c9542e17c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:28 +0000
Subject: [PATCH 059/108] fix: parallel save_mesh reused a cycle counter on
 tasks that had no domains before

---
 src/libs/relay/conduit_relay_io_blueprint.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_blueprint.cpp b/src/libs/relay/conduit_relay_io_blueprint.cpp
index e0c19a8..5b81fab 100644
--- a/src/libs/relay/conduit_relay_io_blueprint.cpp
+++ b/src/libs/relay/conduit_relay_io_blueprint.cpp
@@ -1007,6 +1007,9 @@ void write_mesh(const Node &mesh,
     // -----------------------------------------------------------
 
     int local_num_domains = (int)multi_dom.number_of_children();
+    // stands in for the cycle (per path) when there is none
+    static std::map<std::string,int> counters;
+    int used_counter = 0;
     // figure out what cycle we are
     if(local_num_domains > 0 && is_valid)
     {
@@ -1015,11 +1018,10 @@ void write_mesh(const Node &mesh,
         {
             if(opts_suffix == "cycle")
             {
-                static std::map<std::string,int> counters;
                 CONDUIT_INFO("Blueprint save: no 'state/cycle' present."
                              " Defaulting to counter");
                 cycle = counters[path];
-                counters[path]++;
+                used_counter = 1;
             }
             else
             {
@@ -1047,6 +1049,14 @@ void write_mesh(const Node &mesh,
 
     cycle = n_reduced.as_int();
 
+    // all tasks advance the counter, including those without domains
+    n_local = used_counter;
+    relay::mpi::max_all_reduce(n_local,
+                               n_reduced,
+                               mpi_comm);
+
+    used_counter = n_reduced.as_int();
+
     // we also need to have all mpi tasks agree on the `opts_suffix`
     // checking the first mpi task with domains should be sufficient.
     // find first
@@ -1085,6 +1095,11 @@ void write_mesh(const Node &mesh,
     opts_suffix = n_opts_suffix.as_string();
 
 #endif
+
+    if(used_counter > 0)
+    {
+        counters[path]++;
+    }
     
     // -----------------------------------------------------------
     // find the # of global domains
-- 
2.43.0


From c3c0a9dce64670e9495c032021749b13cfa5bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:48 +0000
Subject: [PATCH 060/108] fix: partition's fields option ignored a list of
 field names

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 2ea3ddf..492f416 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -1978,7 +1978,12 @@ Partitioner::initialize(const conduit::Node &n_mesh,
         selected_fields.clear();
         const conduit::Node &n_fields = options["fields"];
         for(index_t i = 0; i < n_fields.number_of_children(); i++)
-            selected_fields.push_back(n_fields[i].name());
+        {
+            // The fields can be a list of names, or named children.
+            const conduit::Node &n_f = n_fields[i];
+            selected_fields.push_back(n_f.dtype().is_string() ? n_f.as_string()
+                                                              : n_f.name());
+        }
     }
 
     // Get whether we want to preserve old numbering of vertices, elements.
-- 
2.43.0


From 0cce82bb82118bcd2d50c859c9f570a6b6f9649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:01 +0000
Subject: [PATCH 061/108] fix: partition took an explicit selection naming
 missing elements for the whole domain

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 492f416..1f398de 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -813,7 +813,11 @@ SelectionExplicit::determine_is_whole(const conduit::Node &n_mesh) const
             auto indices = get_indices();
             std::set<index_t> unique;
             for(index_t i = 0; i < n; i++)
-                unique.insert(indices[i]);
+            {
+                // Ids that are not in the mesh select nothing.
+                if(indices[i] >= 0 && indices[i] < num_elem_in_mesh)
+                    unique.insert(indices[i]);
+            }
             is_whole = static_cast<index_t>(unique.size()) == num_elem_in_mesh;
 
             // If the mesh is whole, check that the indices are all in ascending
-- 
2.43.0


From db039839132040a166670f757dd4dba9b1c79295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:01 +0000
Subject: [PATCH 062/108] fix: partition ignored its fields option for wholly
 selected domains

---
 .../conduit_blueprint_mesh_partition.cpp      | 27 +++++++++++++------
 .../conduit_blueprint_mesh_partition.hpp      |  5 ++++
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 1f398de..012de4e 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -2764,6 +2764,16 @@ Partitioner::copy_fields(index_t domain, const std::string &topology,
     }
 }
 
+//---------------------------------------------------------------------------
+bool
+Partitioner::is_selected_field(const std::string &name) const
+{
+    return selected_fields.empty() ||
+           std::find(selected_fields.begin(),
+                     selected_fields.end(),
+                     name) != selected_fields.end();
+}
+
 //---------------------------------------------------------------------------
 void
 Partitioner::copy_field(const conduit::Node &n_field,
@@ -2774,10 +2784,7 @@ Partitioner::copy_field(const conduit::Node &n_field,
 
     // If we're subselecting the list of fields, check whether the field we
     // want to copy is in selected_fields.
-    if(!selected_fields.empty() &&
-       std::find(selected_fields.begin(),
-                 selected_fields.end(),
-                 n_field.name()) == selected_fields.end())
+    if(!is_selected_field(n_field.name()))
     {
         return;
     }
@@ -3676,7 +3683,8 @@ Partitioner::wrap(size_t idx, const conduit::Node &n_mesh) const
         for(index_t i = 0; i < n_fields.number_of_children(); i++)
         {
             const conduit::Node &f = n_fields[i];
-            n_new_fields[f.name()].set_external_node(f);
+            if(is_selected_field(f.name()))
+                n_new_fields[f.name()].set_external_node(f);
         }
     }
 
@@ -3692,8 +3700,11 @@ Partitioner::wrap(size_t idx, const conduit::Node &n_mesh) const
         nvertices = mesh::utils::coordset::length(n_cs[csname]);
     }
 
+    // Without mapping, the wrapped mesh only needs the maps for its adjsets.
+    const bool add_maps = mapping || n_mesh.has_child("adjsets");
+
     // Save the vertex_ids as a new MC field.
-    if(nvertices > 0)
+    if(add_maps && nvertices > 0)
     {
         conduit::Node &n_field = n_new_fields[original_vertex_ids_name()];
         n_field["association"] = "vertex";
@@ -3708,7 +3719,7 @@ Partitioner::wrap(size_t idx, const conduit::Node &n_mesh) const
     }
 
     // Save the element_ids as a new MC field.
-    if(nelements > 0)
+    if(add_maps && nelements > 0)
     {
         conduit::Node &n_field = n_new_fields[original_element_ids_name()];
         n_field["association"] = "element";
@@ -4306,7 +4317,7 @@ Partitioner::execute(conduit::Node &output)
             // maps to it without changing the input mesh.
             const conduit::Node* assoc_aset = nullptr;
             conduit::Node* wrapped_adjset = nullptr;
-            if(mapping || meshes[i]->has_child("adjsets"))
+            if(mapping || meshes[i]->has_child("adjsets") || !selected_fields.empty())
             {
                 conduit::Node *c = wrap(i, *meshes[i]);
                 chunks.push_back(Chunk(c, true, dr, dd));
diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
index 97aceb3..f9e5ca9 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
@@ -407,6 +407,11 @@ protected:
                       const conduit::Node &n_mesh,
                       conduit::Node &output) const;
 
+    /**
+     @brief Returns whether the fields option lets the named field into the output.
+     */
+    bool is_selected_field(const std::string &name) const;
+
     /**
      @brief Use the vertex_ids and element_ids to copy from the original
             fields to make new, restricted fields. We also add some mapping
-- 
2.43.0


From 19774741a4d0aa9bb90af2999ec92227eef1c78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:01 +0000
Subject: [PATCH 063/108] fix: partition added original id fields although
 mapping was off

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 012de4e..a52df37 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -9952,7 +9952,7 @@ Partitioner::combine(int domain,
     }
 
     // Cleanup the output node, add original cells/verticies in needed
-    if(!output_fields.has_child(original_element_ids_name()))
+    if(mapping && !output_fields.has_child(original_element_ids_name()))
     {
         // Q: What happens in the case of multiple topologies?
         const Node &n_elem_map = output_topologies[0]["element_map"];
@@ -10007,7 +10007,7 @@ Partitioner::combine(int domain,
         output_topologies[i].remove("element_map");
     }
 
-    if(!output_fields.has_child(original_vertex_ids_name()))
+    if(mapping && !output_fields.has_child(original_vertex_ids_name()))
     {
         // Get the pointmaps
         const std::string &coordset_name = output_topologies[0]["coordset"].as_string();
-- 
2.43.0


From 3d87f7e19222882dcf76d95bfdac837249f9cc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:01 +0000
Subject: [PATCH 064/108] fix: partition looped forever when the target was out
 of reach

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index a52df37..a988474 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -2106,6 +2106,7 @@ Partitioner::split_selections()
     int iteration = 1;
 #endif
     bool splitting = true;
+    long nselections = get_total_selections();
     while(splitting)
     {
         // Get the total number of targets produced by the current selections.
@@ -2122,7 +2123,7 @@ Partitioner::split_selections()
             int sel_rank = -1, sel_index = -1;
             get_largest_selection(sel_rank, sel_index);
 
-            if(rank == sel_rank)
+            if(rank == sel_rank && sel_index >= 0)
             {
                 auto ps = selections[sel_index]->partition(*meshes[sel_index]);
 
@@ -2151,6 +2152,12 @@ Partitioner::split_selections()
 #endif
                 }
             }
+
+            // If even the largest selection could not be split then the
+            // target is out of reach.
+            const long total = get_total_selections();
+            splitting = total > nselections;
+            nselections = total;
         }
     }
 }
-- 
2.43.0


From baa8892b470c4a3737fe9b1d38d61df03012ccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:01 +0000
Subject: [PATCH 065/108] fix: splitting single-element ranges left an empty
 partition

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index a988474..fd3ddf5 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -1149,8 +1149,10 @@ SelectionRanges::partition(const conduit::Node &n_mesh) const
             auto rc = (ranges[2*i+1] - ranges[2*i]) + 1;
             if(rc == 1)
             {
-                r0.push_back(ranges[2*i+0]);
-                r0.push_back(ranges[2*i+0]);
+                // Do not leave the 2nd part empty if the 1st already has cells.
+                auto &r = r0.empty() ? r0 : r1;
+                r.push_back(ranges[2*i+0]);
+                r.push_back(ranges[2*i+0]);
             }
             else if(rc == 2)
             {
-- 
2.43.0


From 38145c8f2c9596b610eb49e7ed578f2b17d57ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:01 +0000
Subject: [PATCH 066/108] fix: partition dropped the original id maps of meshes
 without fields

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index fd3ddf5..64cb0fc 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -2706,9 +2706,12 @@ Partitioner::copy_fields(index_t domain, const std::string &topology,
     const conduit::Node &n_mesh,
     conduit::Node &n_output) const
 {
-    if(n_mesh.has_child("fields"))
+    // The maps are made even if the mesh has no fields.
+    const conduit::Node n_no_fields;
+    if(mapping || n_mesh.has_child("fields"))
     {
-        const conduit::Node &n_fields = n_mesh["fields"];
+        const conduit::Node &n_fields = n_mesh.has_child("fields") ?
+            n_mesh["fields"] : n_no_fields;
         if(!vertex_ids.empty())
         {
             conduit::Node &n_output_fields = n_output["fields"];
-- 
2.43.0


From 8bf61e2645af69619c3895dbbb5275670ea129d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:01 +0000
Subject: [PATCH 067/108] fix: partition_map_back overran its element map for
 partially mapped domains

---
 .../conduit_blueprint_mesh_partition.cpp      | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 64cb0fc..b116a4c 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -9039,6 +9039,8 @@ map_element_field(const std::vector<const Node*> &in_nodes,
             const index_t idx      = out_idx * 2;
             const index_t dom_idx  = elemmap[idx];
             const index_t elem_idx = elemmap[idx+1];
+            if(dom_idx < 0)
+                continue;
             const Node &data = in_nodes[dom_idx]->child("values");
             for(index_t ci = 0; ci < ncomps; ci++)
             {
@@ -9057,6 +9059,8 @@ map_element_field(const std::vector<const Node*> &in_nodes,
             const index_t idx      = out_idx * 2;
             const index_t dom_idx  = elemmap[idx];
             const index_t elem_idx = elemmap[idx+1];
+            if(dom_idx < 0)
+                continue;
             const Node &data = in_nodes[dom_idx]->child("values");
             void *out_data = out_node.element_ptr(out_idx);
             const void *in_data = data.element_ptr(elem_idx);
@@ -10312,16 +10316,23 @@ Partitioner::map_back_fields(const conduit::Node& repart_mesh,
     communicate_mapback(packed_fields);
     for (const auto& orig_dom : packed_fields)
     {
-        // Precompute final element count
+        Node& tgt_dom = *gid_to_orig_dom[orig_dom.first];
+
+        // Precompute final element count. The chunks may hold only some of the
+        // elements of the original domain.
         index_t nelems = 0;
         for (const Node& src_chunk : orig_dom.second.children())
         {
-            DataArray<index_t> cnk_map = src_chunk["elem_map"].value();
-            nelems += cnk_map.number_of_elements();
+            for (const Node& field : src_chunk["fields"].children())
+            {
+                const Node& tgt_topo = tgt_dom["topologies"][field["topology"].as_string()];
+                nelems = std::max(nelems, topology::length(tgt_topo));
+            }
         }
 
         int cnk_id = 0;
-        vector<index_t> tgt_elem_map(nelems * 2);
+        // -1 marks elements that are in none of the chunks.
+        vector<index_t> tgt_elem_map(nelems * 2, -1);
         vector<DataArray<index_t>> tgt_vert_maps(orig_dom.second.number_of_children());
         unordered_map<string, vector<const Node*>> field_groups;
         for (const Node& src_chunk : orig_dom.second.children())
@@ -10336,6 +10347,10 @@ Partitioner::map_back_fields(const conduit::Node& repart_mesh,
             for (index_t i = 0; i < cnk_map.number_of_elements(); i++)
             {
                 index_t out_idx = cnk_map[i];
+                if (out_idx < 0 || out_idx >= nelems)
+                {
+                    continue;
+                }
                 tgt_elem_map[2*out_idx] = cnk_id;
                 tgt_elem_map[2*out_idx + 1] = i;
             }
@@ -10351,7 +10366,6 @@ Partitioner::map_back_fields(const conduit::Node& repart_mesh,
             tmp.set_external(tgt_elem_map);
             elem_map_arr = tmp.value();
         }
-        Node& tgt_dom = *gid_to_orig_dom[orig_dom.first];
         for (const auto& fg : field_groups)
         {
             const vector<const Node*>& src_fields = fg.second;
-- 
2.43.0


From d32e14163784aeca8ae3199a83ce385139df3514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:10 +0000
Subject: [PATCH 068/108] fix: partition left an empty fields node in domains
 without fields

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index b116a4c..681eef6 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -4450,6 +4450,13 @@ Partitioner::execute(conduit::Node &output)
                 combine(*dom, this_dom_chunks, this_dom_cnkid, *new_dom);
             }
 
+            // A mesh with an empty fields node would not be valid.
+            if (new_dom->has_child("fields") &&
+                (*new_dom)["fields"].number_of_children() == 0)
+            {
+                new_dom->remove("fields");
+            }
+
             if (new_dom->has_child("adjsets"))
             {
                 merge_chunked_adjsets((*new_dom)["adjsets"], dest_domain);
-- 
2.43.0


From 7e49888e748f1a9025f2b16bd9c981fa822dc475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:03 +0000
Subject: [PATCH 069/108] fix: parallel partition_map_back hung on ranks
 without repartitioned domains

---
 .../blueprint/conduit_blueprint_mesh_partition.cpp     |  9 +++++++++
 .../blueprint/conduit_blueprint_mesh_partition.hpp     |  6 ++++++
 .../blueprint/conduit_blueprint_mpi_mesh_partition.cpp | 10 ++++++++++
 .../blueprint/conduit_blueprint_mpi_mesh_partition.hpp |  2 ++
 4 files changed, 27 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 681eef6..d1ba462 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -4692,6 +4692,12 @@ Partitioner::communicate_mapback(std::unordered_map<index_t, Node>& /*packed_fie
     // implemented only in parallel case
 }
 
+//-------------------------------------------------------------------------
+bool Partitioner::any_rank(bool flag) const
+{
+    return flag;
+}
+
 //-------------------------------------------------------------------------
 void Partitioner::synchronize_gvids(const std::vector<std::vector<index_t>>& /*remap_to_local_doms*/,
                                     std::map<index_t, std::vector<index_t>>& /*orig_dom_gvids*/)
@@ -10150,6 +10156,9 @@ Partitioner::map_back_fields(const conduit::Node& repart_mesh,
         }
     }
 
+    // Ranks without repartitioned domains take part in the exchange below too.
+    has_vert_fields = any_rank(has_vert_fields);
+
     // Get a field prefix. Some of the mapping fields used here may have
     // used a field_prefix when they were generated.
     std::string field_prefix;
diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
index f9e5ca9..1300108 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
@@ -723,6 +723,12 @@ protected:
      */
     virtual void communicate_mapback(std::unordered_map<index_t, Node>& packed_fields);
 
+    /**
+     @brief Returns whether the flag is set on any of the ranks.
+     @note Reimplemented in parallel
+     */
+    virtual bool any_rank(bool flag) const;
+
     /**
      @brief During the field back-map, communicates global vertex id information
             to any ranks that need it for constructing the map-back vertex
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
index f911b27..3c319bb 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
@@ -938,6 +938,16 @@ ParallelPartitioner::communicate_mapback(std::unordered_map<index_t, Node>& pack
     }
 }
 
+//-----------------------------------------------------------------------------
+bool
+ParallelPartitioner::any_rank(bool flag) const
+{
+    int local = flag ? 1 : 0, global = 0;
+    MPI_Allreduce(&local, &global, 1, MPI_INT, MPI_MAX, comm);
+    return global > 0;
+}
+
+//-----------------------------------------------------------------------------
 void
 ParallelPartitioner::synchronize_gvids(
     const std::vector<std::vector<index_t>>& remap_to_local_doms,
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp
index 791c7b4..dcbfaa9 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp
@@ -119,6 +119,8 @@ protected:
 
     virtual void communicate_mapback(std::unordered_map<index_t, Node>& packed_fields) override;
 
+    virtual bool any_rank(bool flag) const override;
+
     virtual void synchronize_gvids(const std::vector<std::vector<index_t>>& remap_to_local_doms,
                                    std::map<index_t, std::vector<index_t>>& orig_dom_gvids) override;
 
-- 
2.43.0


From 1b3a1e1e25809b5070801468c946928f400e8c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:43 +0000
Subject: [PATCH 070/108] fix: parallel partition hung when domains without ids
 left a rank empty

---
 src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
index 3c319bb..3d98aed 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
@@ -98,6 +98,9 @@ ParallelPartitioner::get_global_domids(const conduit::Node& n_mesh)
             have_domids = false;
         }
     }
+    // All ranks, even those without domains, have to agree on the branch
+    // taken below since it communicates.
+    have_domids = !any_rank(!have_domids);
 
     int64 prob_ndoms = 0;
     if (!have_domids)
-- 
2.43.0


From f40d6ad313018e5159637232de73acce6fbaa61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:38 +0000
Subject: [PATCH 071/108] fix: partition read past the end of one-dimensional
 grids

---
 .../blueprint/conduit_blueprint_mesh_partition.cpp  | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index d1ba462..a061a2c 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -610,7 +610,8 @@ SelectionLogical::get_vertex_ids(const conduit::Node &n_mesh,
         conduit::blueprint::mesh::utils::topology::logical_dims(n_topo, dims, 3);
         index_t ndims = conduit::blueprint::mesh::utils::topology::dims(n_topo);
         dims[0]++;
-        dims[1]++;
+        if(ndims > 1)
+            dims[1]++;
         if(ndims > 2)
             dims[2]++;
 
@@ -620,7 +621,7 @@ SelectionLogical::get_vertex_ids(const conduit::Node &n_mesh,
         auto mesh_NX   = dims[0];
         index_t n_end[3];
         n_end[0] = end[0] + 1;
-        n_end[1] = end[1] + 1;
+        n_end[1] = (ndims > 1) ? (end[1] + 1) : start[1];
         n_end[2] = (ndims > 2) ? (end[2] + 1) : start[2];
 
         for(index_t k = start[2]; k <= n_end[2]; k++)
@@ -2854,7 +2855,7 @@ Partitioner::get_vertex_ids_for_element_ids(const conduit::Node &n_topo,
             {0,1,1},
             {1,1,1}
         };
-        int np = (ndims == 2) ? 4 : 8;
+        int np = (ndims == 1) ? 2 : ((ndims == 2) ? 4 : 8);
         auto n = element_ids.size();
         for(size_t j = 0; j < n; j++)
         {
@@ -3137,7 +3138,8 @@ Partitioner::create_new_uniform_coordset(const conduit::Node &n_coordset,
     index_t ndims = conduit::blueprint::mesh::utils::coordset::dims(n_coordset);
     n_new_coordset["type"] = "uniform";
     n_new_coordset["dims/i"] = end[0] - start[0] + 2;
-    n_new_coordset["dims/j"] = end[1] - start[1] + 2;
+    if(ndims > 1)
+        n_new_coordset["dims/j"] = end[1] - start[1] + 2;
     if(ndims > 2)
         n_new_coordset["dims/k"] = end[2] - start[2] + 2;
 
@@ -3279,7 +3281,8 @@ Partitioner::create_new_structured_topo(const conduit::Node &n_topo,
     n_new_topo["coordset"] = csname;
     conduit::Node &n_dims = n_new_topo["elements/dims"];
     n_dims["i"].set(static_cast<conduit::int64>(end[0] - start[0] + 1));
-    n_dims["j"].set(static_cast<conduit::int64>(end[1] - start[1] + 1));
+    if(n_topo.has_path("elements/dims/j"))
+        n_dims["j"].set(static_cast<conduit::int64>(end[1] - start[1] + 1));
     if(n_topo.has_path("elements/dims/k"))
         n_dims["k"].set(static_cast<conduit::int64>(end[2] - start[2] + 1));
     const char *keys[] = {"elements/origin/i0",
-- 
2.43.0


From b81c63428b54ae0bd56b12585d844fb145adea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:35 +0000
Subject: [PATCH 072/108] fix: a const value could not be read as char (missing
 definition)

---
 src/libs/conduit/conduit_node.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 13e5268..5179efc 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -12312,6 +12312,15 @@ Node::ConstValue::~ConstValue()
 // c style signed ints
 //---------------------------------------------------------------------------//
 
+//---------------------------------------------------------------------------//
+Node::ConstValue::operator char() const
+{
+    if(m_coerse)
+        return m_node->to_char();
+    else
+        return m_node->as_char();
+}
+
 //---------------------------------------------------------------------------//
 Node::ConstValue::operator signed char() const
 {
-- 
2.43.0


From 31a8735367e24a8fa60153401f7c6fee27926b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:03 +0000
Subject: [PATCH 073/108] fix: a schema set to an object or list type id had no
 children storage

---
 src/libs/conduit/conduit_schema.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index d1df1d9..c3a32f1 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -151,8 +151,19 @@ void
 Schema::set(index_t dtype_id)
 {
     reset();
-    m_dtype.reset();
-    m_dtype.set_id(dtype_id);
+    if(dtype_id == DataType::OBJECT_ID)
+    {
+        init_object();
+    }
+    else if(dtype_id == DataType::LIST_ID)
+    {
+        init_list();
+    }
+    else
+    {
+        m_dtype.reset();
+        m_dtype.set_id(dtype_id);
+    }
 }
 
 
-- 
2.43.0


From a753844a3b8629ac75fd1f87bd3d4db32a734cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:03 +0000
Subject: [PATCH 074/108] fix: Schema::operator=(index_t) was declared but not
 defined

---
 src/libs/conduit/conduit_schema.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index c3a32f1..b96e3d9 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -206,6 +206,14 @@ Schema::operator=(const Schema &schema)
     return *this;
 }
 
+//---------------------------------------------------------------------------//
+Schema &
+Schema::operator=(index_t dtype_id)
+{
+    set(dtype_id);
+    return *this;
+}
+
 //---------------------------------------------------------------------------//
 Schema &
 Schema::operator=(const DataType &dtype)
-- 
2.43.0


From edc5d664e8e1c6e27e3ac92f8011d54666ac838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:03 +0000
Subject: [PATCH 075/108] fix: Schema::fetch_existing never followed '..'

---
 src/libs/conduit/conduit_schema.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index b96e3d9..f16b6a2 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -944,8 +944,6 @@ Schema::fetch_existing(const std::string &path)
     std::string p_next;
     utils::split_path(path,p_curr,p_next);
 
-    size_t idx = (size_t) child_index(p_curr);
-    
     // check for parent
     if(p_curr == "..")
     {
@@ -959,6 +957,8 @@ Schema::fetch_existing(const std::string &path)
         }
     }
     
+    size_t idx = (size_t) child_index(p_curr);
+    
     if(p_next.empty())
     {
         return *children()[idx];
-- 
2.43.0


From 864440f7fd8015ceae284954ec2ef31bd840eea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:53 +0000
Subject: [PATCH 076/108] fix: Node::to_signed_char/short/int/long_array were
 declared but not defined

---
 src/libs/conduit/conduit_node.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 5179efc..15b976e 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -11067,6 +11067,34 @@ Node::to_long_array(Node &res) const
     }
 }
 
+//---------------------------------------------------------------------------//
+void
+Node::to_signed_char_array(Node &res) const
+{
+    to_data_type(CONDUIT_NATIVE_SIGNED_CHAR_ID,res);
+}
+
+//---------------------------------------------------------------------------//
+void
+Node::to_signed_short_array(Node &res) const
+{
+    to_data_type(CONDUIT_NATIVE_SIGNED_SHORT_ID,res);
+}
+
+//---------------------------------------------------------------------------//
+void
+Node::to_signed_int_array(Node &res) const
+{
+    to_data_type(CONDUIT_NATIVE_SIGNED_INT_ID,res);
+}
+
+//---------------------------------------------------------------------------//
+void
+Node::to_signed_long_array(Node &res) const
+{
+    to_data_type(CONDUIT_NATIVE_SIGNED_LONG_ID,res);
+}
+
 //---------------------------------------------------------------------------//
 #ifdef CONDUIT_HAS_LONG_LONG
 //---------------------------------------------------------------------------//
-- 
2.43.0


From b8cc8755c079b06a86db2269108aae88336eee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:58 +0000
Subject: [PATCH 077/108] fix: mesh verify threw on a mixed topology whose
 shape_map is missing or whose shapes are not integers

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 61ebcf5..f8acb9d 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -512,6 +512,11 @@ bool verify_shapes_node(const Node &node, const Node &shape_map, Node &info)
   bool res = true;
   res &= verify_integer_field(protocol, node, info);
 
+  if (!res)
+  {
+    return res;
+  }
+
   const int32_accessor shapes = node.value();
 
   std::vector<int32> range;
@@ -555,6 +560,7 @@ bool verify_mixed_elements_node(const Node& topo_elems, Node &info_elems, bool&
       conduit::blueprint::mesh::topology::shape_map::verify(topo_elems["shape_map"], info_elems["shape_map"]);
 
   elems_res &= verify_field_exists(protocol, topo_elems, info_elems, "shapes") &&
+      topo_elems.has_child("shape_map") &&
       verify_shapes_node(topo_elems["shapes"], topo_elems["shape_map"], info_elems["shapes"]);
 
   return elems_res;
-- 
2.43.0


From 2e35085bcbd5a961d6bfcd06992c0f0f7344f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:58 +0000
Subject: [PATCH 078/108] fix: specset verify threw on a material without
 species

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index f8acb9d..35266cf 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -6689,7 +6689,7 @@ mesh::specset::verify(const Node &specset,
             {
                 specmats_res &= false;
             }
-            else
+            else if(specmat.number_of_children() > 0)
             {
                 const index_t specmat_len = specmat.child(0).dtype().number_of_elements();
                 if(specmats_len == 0)
-- 
2.43.0


From 0f8582db3517a65b13f086414138ea6d0e49291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:58 +0000
Subject: [PATCH 079/108] fix: adjset verify did not compare the dimensions of
 window origin, dims and ratio

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 35266cf..2141ea7 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -6812,10 +6812,10 @@ mesh::adjset::verify(const Node &adjset,
                         index_t window_dim = wndw["origin"].number_of_children();
                         window_res &= !wndw.has_child("dims") ||
                             verify_object_field(protocol, wndw,
-                                wndw_info, "dims", false, window_dim);
+                                wndw_info, "dims", false, false, window_dim);
                         window_res &= !wndw.has_child("ratio") ||
                             verify_object_field(protocol, wndw,
-                                wndw_info, "ratio", false, window_dim);
+                                wndw_info, "ratio", false, false, window_dim);
                     }
 
                     log::validation(wndw_info,window_res);
-- 
2.43.0


From 6eececbd24258614f6564d8201cb905fcb72c698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:58 +0000
Subject: [PATCH 080/108] fix: mesh index generation threw on a field whose
 matset_values is a single array

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 2141ea7..dbb79eb 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -2433,7 +2433,7 @@ mesh::generate_index_for_single_domain(const Node &mesh,
                     ncomps = fld["values"].number_of_children();
                 }
             }
-            else
+            else if(fld["matset_values"].number_of_children() > 0)
             {
                 if(fld["matset_values"].child(0).dtype().is_object())
                 {
-- 
2.43.0


From 7238f82d950fedcdf3819f2a4d29f9596a053fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:58 +0000
Subject: [PATCH 081/108] fix: matset verify accepted an empty volume_fractions
 object

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index dbb79eb..f5b4d09 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -6291,6 +6291,10 @@ mesh::matset::verify(const Node &matset,
             res &= vfs_res;
             log::validation(vfs_info, vfs_res);
         }
+        else
+        {
+            res &= vfs_res &= false;
+        }
     }
 
     if(!mat_map_is_optional && !matset.has_child("material_map"))
-- 
2.43.0


From 718be690436862d152e50704b8f24ecddf0b5fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:17 +0000
Subject: [PATCH 082/108] fix: mesh::flatten threw on a domain without fields

---
 .../blueprint/conduit_blueprint_mesh_flatten.cpp     | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
index e5ec91c..1a23e8c 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
@@ -724,6 +724,10 @@ MeshFlattener::get_fields_to_flatten(const Node &mesh,
         for(index_t i = 0; i < ndomains; i++)
         {
             const Node &domain = mesh[i];
+            if(!domain.has_child("fields"))
+            {
+                continue;
+            }
             const Node &fields = domain["fields"];
             auto itr = fields.children();
             while(itr.has_next())
@@ -753,6 +757,10 @@ MeshFlattener::get_reference_field(const Node &mesh,
     const index_t ndomains = mesh.number_of_children();
     for(index_t i = 0; i < ndomains; i++)
     {
+        if(!mesh[i].has_child("fields"))
+        {
+            continue;
+        }
         const Node &fields = mesh[i]["fields"];
         if(fields.has_child(field_name))
         {
@@ -1149,6 +1157,10 @@ MeshFlattener::flatten_single_domain(const Node &mesh, Node &output,
     }
 
     // Add fields to their respective tables
+    if(!mesh.has_child("fields"))
+    {
+        return;
+    }
     const Node &fields = mesh["fields"];
 #ifdef DEBUG_MESH_FLATTEN
     std::cout << "Domain[" << domain_id << "] fields to flatten:\n";
-- 
2.43.0


From 40e1e5cf25641a6d241fd486adb2b51522875732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:17 +0000
Subject: [PATCH 083/108] fix: mesh::flatten threw when coordinate components
 have different types

---
 src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
index 1a23e8c..547985b 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
@@ -937,7 +937,7 @@ MeshFlattener::generate_element_centers(const Node &topo,
             // Only convert what we need to convert
             if(n_comp.dtype().id() != cset_type)
             {
-                n_cset_values.to_data_type(cset_type, temp[n_comp.name()]);
+                n_comp.to_data_type(cset_type, temp[n_comp.name()]);
             }
             else
             {
@@ -949,9 +949,9 @@ MeshFlattener::generate_element_centers(const Node &topo,
 #define GENERATE_ELEMENT_CENTERS_CSET_TYPE(CsetType, OutputType)\
 {\
     const std::array<const DataArray<CsetType>, 3> cset_values{\
-        (dimension > 0) ? n_cset_values[0].value() : DataArray<CsetType>(),\
-        (dimension > 1) ? n_cset_values[1].value() : DataArray<CsetType>(),\
-        (dimension > 2) ? n_cset_values[2].value() : DataArray<CsetType>(),\
+        (dimension > 0) ? temp[0].value() : DataArray<CsetType>(),\
+        (dimension > 1) ? temp[1].value() : DataArray<CsetType>(),\
+        (dimension > 2) ? temp[2].value() : DataArray<CsetType>(),\
     };\
     utils::generate_element_centers_impl<CsetType, OutputType>(topo, dimension,\
         cset_values.data(), output_values.data(), offset);\
-- 
2.43.0


From 926e11ca7e98395914699f4e9337c7f255f6bc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:17 +0000
Subject: [PATCH 084/108] fix: mesh::flatten put a domain's field of another
 topology into the column of the same name

---
 src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
index 547985b..39e7337 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
@@ -1175,7 +1175,7 @@ MeshFlattener::flatten_single_domain(const Node &mesh, Node &output,
     for(const std::string &field_name : fields_to_flatten)
     {
         const Node *field = fields.fetch_ptr(field_name);
-        if(field)
+        if(field && check_field_supported(*field, topo.name(), false))
         {
             const std::string association = field->child("association").as_string();
             const Node &field_values = field->child("values");
-- 
2.43.0


From 1cb795332cfe9d9831724405ad83decf0b175a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:16 +0000
Subject: [PATCH 085/108] fix: mesh::flatten truncated floating point data next
 to wider or equally wide integers

---
 .../conduit_blueprint_mesh_flatten.cpp        | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
index 39e7337..9c7fac3 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
@@ -774,10 +774,35 @@ MeshFlattener::get_reference_field(const Node &mesh,
     return nullptr;
 }
 
+//-----------------------------------------------------------------------------
+static bool
+has_floating_point_leaf(const Node &data)
+{
+    if(!data.dtype().is_object() && !data.dtype().is_list())
+    {
+        return data.dtype().is_floating_point();
+    }
+    auto itr = data.children();
+    while(itr.has_next())
+    {
+        if(has_floating_point_leaf(itr.next()))
+        {
+            return true;
+        }
+    }
+    return false;
+}
+
 //-----------------------------------------------------------------------------
 index_t
 MeshFlattener::determine_element_dtype(const Node &data) const
 {
+    // Any floating point data requires a floating point column.
+    if(has_floating_point_leaf(data))
+    {
+        return blueprint::mesh::utils::find_widest_dtype(
+            data, DataType::float32()).id();
+    }
     // Turns out blueprint::mesh::utils has a function for this
     const std::vector<DataType> default_dtypes{
         DataType::float32(),
-- 
2.43.0


From 1ac4ead7459d93b3823d1c55158de44d6b78ac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:16 +0000
Subject: [PATCH 086/108] fix: mesh::flatten truncated coordinates of later
 domains to the first domain's type

---
 .../conduit_blueprint_mesh_flatten.cpp        | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
index 9c7fac3..9e10c4e 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
@@ -12,6 +12,7 @@
 //-----------------------------------------------------------------------------
 // std lib includes
 //-----------------------------------------------------------------------------
+#include <algorithm>
 #include <array>
 #include <iostream>
 #include <set>
@@ -567,17 +568,19 @@ MeshFlattener::collect_mesh_info(const Node &mesh, MeshInfo &out) const
             first = false;
             out.dimension = blueprint::mesh::coordset::dims(dom_cset);
             out.axes = blueprint::mesh::utils::coordset::axes(dom_cset);
-            const std::string cset_type_name = dom_cset["type"].as_string();
-            if(cset_type_name == "uniform" || cset_type_name == "rectilinear")
-            {
-                out.coord_type = determine_element_dtype(dom_cset);
-            }
-            else if(cset_type_name == "explicit")
-            {
-                out.coord_type = determine_element_dtype(dom_cset["values"]);
-            }
             out.cset_name = dom_cset.name();
         }
+
+        // NOTE: small ints < large ints < small floats < large floats
+        const std::string cset_type_name = dom_cset["type"].as_string();
+        if(cset_type_name == "uniform" || cset_type_name == "rectilinear")
+        {
+            out.coord_type = std::max(out.coord_type, determine_element_dtype(dom_cset));
+        }
+        else if(cset_type_name == "explicit")
+        {
+            out.coord_type = std::max(out.coord_type, determine_element_dtype(dom_cset["values"]));
+        }
     }
 
     // Check if each domain had a proper domain_id, if not replace domain
-- 
2.43.0


From b6c322a0a7c8b183f2b7b7b016ca399b90f545e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:10 +0000
Subject: [PATCH 087/108] fix: iterate_elements ignored the offsets of
 polygonal and polyhedral elements

---
 ..._blueprint_mesh_utils_iterate_elements.hpp | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils_iterate_elements.hpp b/src/libs/blueprint/conduit_blueprint_mesh_utils_iterate_elements.hpp
index 90bb92a..b64cce2 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils_iterate_elements.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils_iterate_elements.hpp
@@ -315,11 +315,21 @@ traverse_polygonal_elements(FuncType &&func, const Node &elements,
     e.shape = utils::ShapeType((index_t)ShapeId::Polygonal);
     const index_t_accessor conn = elements["connectivity"].as_index_t_accessor();
     const index_t_accessor sizes = elements["sizes"].as_index_t_accessor();
+    const Node *p_offsets = elements.fetch_ptr("offsets");
+    index_t_accessor offsets;
+    if(p_offsets)
+    {
+        offsets = p_offsets->as_index_t_accessor();
+    }
     index_t ei = 0;
     for(index_t i = 0; i < sizes.number_of_elements(); i++)
     {
         e.entity_id = ent_id;
         const index_t sz = sizes[i];
+        if(i < offsets.number_of_elements())
+        {
+            ei = offsets[i];
+        }
         e.element_ids.resize(sz);
         for(index_t j = 0; j < sz; j++)
         {
@@ -346,11 +356,21 @@ traverse_polyhedral_elements(FuncType &&func, const Node &elements,
     const index_t_accessor subconn = subelements["connectivity"].as_index_t_accessor();
     const index_t_accessor subsizes = subelements["sizes"].as_index_t_accessor();
     const index_t_accessor suboffsets = subelements["offsets"].as_index_t_accessor();
+    const Node *p_offsets = elements.fetch_ptr("offsets");
+    index_t_accessor offsets;
+    if(p_offsets)
+    {
+        offsets = p_offsets->as_index_t_accessor();
+    }
     index_t ei = 0;
     for(index_t i = 0; i < sizes.number_of_elements(); i++)
     {
         e.entity_id = ent_id;
         const index_t sz = sizes[i];
+        if(i < offsets.number_of_elements())
+        {
+            ei = offsets[i];
+        }
         e.element_ids.resize(sz);
         for(index_t j = 0; j < sz; j++)
         {
-- 
2.43.0


From 6ea384eb08b4188c5dc027c31954baa9a0db8790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:10 +0000
Subject: [PATCH 088/108] fix: iterate_elements ignored the offsets and strides
 of structured topologies

---
 ..._blueprint_mesh_utils_iterate_elements.hpp | 61 ++++++++++++-------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils_iterate_elements.hpp b/src/libs/blueprint/conduit_blueprint_mesh_utils_iterate_elements.hpp
index b64cce2..b245bb0 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils_iterate_elements.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils_iterate_elements.hpp
@@ -507,6 +507,24 @@ traverse_structured(FuncType &&func, const Node &topo)
     topology::logical_dims(topo, dims.data(), 3);
     const index_t dimension = topology::dims(topo);
 
+    // The points of the elements may be a window of a larger grid
+    index_t sx = 1, sy = dims[0] + 1, sz = (dims[0] + 1) * (dims[1] + 1);
+    index_t start = 0;
+    if(topo.has_path("elements/dims/strides"))
+    {
+        const index_t_accessor strides = topo["elements/dims/strides"].as_index_t_accessor();
+        sx = strides[0];
+        sy = dimension > 1 ? strides[1] : sy;
+        sz = dimension > 2 ? strides[2] : sz;
+    }
+    if(topo.has_path("elements/dims/offsets"))
+    {
+        const index_t_accessor offsets = topo["elements/dims/offsets"].as_index_t_accessor();
+        start = offsets[0] * sx;
+        start += dimension > 1 ? offsets[1] * sy : 0;
+        start += dimension > 2 ? offsets[2] * sz : 0;
+    }
+
     if(dimension == 1)
     {
         // Line elements
@@ -517,8 +535,8 @@ traverse_structured(FuncType &&func, const Node &topo)
         for(index_t i = 0; i < dims[0]; i++)
         {
             e.entity_id = i;
-            e.element_ids[0] = i;
-            e.element_ids[1] = i + 1;
+            e.element_ids[0] = start + i * sx;
+            e.element_ids[1] = start + (i + 1) * sx;
             func(e);
         }
     }
@@ -529,19 +547,18 @@ traverse_structured(FuncType &&func, const Node &topo)
         e.shape = ShapeType((index_t)ShapeId::Quad);
         e.element_ids.resize(4);
         e.subelement_ids.clear();
-        const index_t nx = dims[0] + 1;
         index_t id = 0;
         for(index_t j = 0; j < dims[1]; j++)
         {
-            const index_t jnx  = j * nx;
-            const index_t j1nx = (j + 1) * nx;
+            const index_t jnx  = start + j * sy;
+            const index_t j1nx = start + (j + 1) * sy;
             for(index_t i = 0; i < dims[0]; i++)
             {
                 e.entity_id = id++;
-                e.element_ids[0] = jnx + i;
-                e.element_ids[1] = jnx + i + 1;
-                e.element_ids[2] = j1nx + i + 1;
-                e.element_ids[3] = j1nx + i;
+                e.element_ids[0] = jnx + i * sx;
+                e.element_ids[1] = jnx + (i + 1) * sx;
+                e.element_ids[2] = j1nx + (i + 1) * sx;
+                e.element_ids[3] = j1nx + i * sx;
                 func(e);
             }
         }
@@ -553,28 +570,26 @@ traverse_structured(FuncType &&func, const Node &topo)
         e.shape = ShapeType((index_t)ShapeId::Hex);
         e.element_ids.resize(8);
         e.subelement_ids.clear();
-        const index_t nx = dims[0] + 1;
-        const index_t ny = dims[1] + 1;
         index_t id = 0;
         for(index_t k = 0; k < dims[2]; k++)
         {
-            const index_t knxny  = k * nx * ny;
-            const index_t k1nxny = (k + 1) * nx * ny;
+            const index_t knxny  = start + k * sz;
+            const index_t k1nxny = start + (k + 1) * sz;
             for(index_t j = 0; j < dims[1]; j++)
             {
-                const index_t jnx  = j * nx;
-                const index_t j1nx = (j + 1) * nx;
+                const index_t jnx  = j * sy;
+                const index_t j1nx = (j + 1) * sy;
                 for(index_t i = 0; i < dims[0]; i++)
                 {
                     e.entity_id = id++;
-                    e.element_ids[0] = knxny  + jnx  + i;
-                    e.element_ids[1] = knxny  + jnx  + i + 1;
-                    e.element_ids[2] = knxny  + j1nx + i + 1;
-                    e.element_ids[3] = knxny  + j1nx + i;
-                    e.element_ids[4] = k1nxny + jnx  + i;
-                    e.element_ids[5] = k1nxny + jnx  + i + 1;
-                    e.element_ids[6] = k1nxny + j1nx + i + 1;
-                    e.element_ids[7] = k1nxny + j1nx + i;
+                    e.element_ids[0] = knxny  + jnx  + i * sx;
+                    e.element_ids[1] = knxny  + jnx  + (i + 1) * sx;
+                    e.element_ids[2] = knxny  + j1nx + (i + 1) * sx;
+                    e.element_ids[3] = knxny  + j1nx + i * sx;
+                    e.element_ids[4] = k1nxny + jnx  + i * sx;
+                    e.element_ids[5] = k1nxny + jnx  + (i + 1) * sx;
+                    e.element_ids[6] = k1nxny + j1nx + (i + 1) * sx;
+                    e.element_ids[7] = k1nxny + j1nx + i * sx;
                     func(e);
                 }
             }
-- 
2.43.0


From 8ff0461dfb2497548bfefffe4f6701bb7f781205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:10 +0000
Subject: [PATCH 089/108] fix: coordset::extents truncated the origin of
 uniform coordsets to an integer

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index 1ac7946..410e600 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -1450,13 +1450,13 @@ coordset::extents(const Node &n)
         float64 min, max;
         if(csys_type == "uniform")
         {
-            index_t origin = 0;
+            float64 origin = 0.0;
             float64 spacing = 1.0;
             index_t dim = n["dims"][LOGICAL_AXES[i]].to_index_t();
             if(n.has_child("origin")
                 && n["origin"].has_child(csys_axes[i]))
             {
-                origin = n["origin"][csys_axes[i]].to_index_t();
+                origin = n["origin"][csys_axes[i]].to_float64();
             }
             if(n.has_child("spacing")
                 && n["spacing"].has_child("d"+csys_axes[i]))
-- 
2.43.0


From 86e0e96f516a851362d29f15458d8c2e11a92cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:34 +0000
Subject: [PATCH 090/108] fix: mpi::mesh::flatten lost the axes of spherical
 meshes and of ranks next to empty ones

---
 .../conduit_blueprint_mpi_mesh_flatten.cpp      | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.cpp
index 1b84ef8..7017205 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.cpp
@@ -438,15 +438,20 @@ ParallelMeshFlattener::gather_global_mesh_metadata(const MeshInfo &my_info,
 
     // Lastly root needs an educated guess at dimension names.
     index_t my_axes = 0;
-    if(my_info.axes.size() > 1)
+    if(my_info.axes.empty())
+    {
+        // Ranks without data do not have a preference
+        my_axes = 4;
+    }
+    else if(my_info.axes.size() > 1)
     {
         if(my_info.axes[0] == blueprint::mesh::utils::CYLINDRICAL_AXES[0])
         {
             my_axes = 1;
-            if(my_info.axes[1] == blueprint::mesh::utils::SPHERICAL_AXES[1])
-            {
-                my_axes = 2;
-            }
+        }
+        else if(my_info.axes[0] == blueprint::mesh::utils::SPHERICAL_AXES[0])
+        {
+            my_axes = 2;
         }
         else if(my_info.axes[0] == blueprint::mesh::utils::LOGICAL_AXES[0])
         {
@@ -471,7 +476,7 @@ ParallelMeshFlattener::gather_global_mesh_metadata(const MeshInfo &my_info,
         case 3:
             out.axes = blueprint::mesh::utils::LOGICAL_AXES;
             break;
-        default: // 0
+        default: // 0 (or no data at all)
             out.axes = blueprint::mesh::utils::CARTESIAN_AXES;
             break;
         }
-- 
2.43.0


From 3aa1c4b7edaa8196a0510136f086a5f1fba60dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:34 +0000
Subject: [PATCH 091/108] fix: mesh::flatten swapped element center components
 of coordsets that do not list their axes in order

---
 src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
index 9e10c4e..e42e221 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
@@ -977,9 +977,9 @@ MeshFlattener::generate_element_centers(const Node &topo,
 #define GENERATE_ELEMENT_CENTERS_CSET_TYPE(CsetType, OutputType)\
 {\
     const std::array<const DataArray<CsetType>, 3> cset_values{\
-        (dimension > 0) ? temp[0].value() : DataArray<CsetType>(),\
-        (dimension > 1) ? temp[1].value() : DataArray<CsetType>(),\
-        (dimension > 2) ? temp[2].value() : DataArray<CsetType>(),\
+        (dimension > 0) ? temp[output[0].name()].value() : DataArray<CsetType>(),\
+        (dimension > 1) ? temp[output[1].name()].value() : DataArray<CsetType>(),\
+        (dimension > 2) ? temp[output[2].name()].value() : DataArray<CsetType>(),\
     };\
     utils::generate_element_centers_impl<CsetType, OutputType>(topo, dimension,\
         cset_values.data(), output_values.data(), offset);\
-- 
2.43.0


From 4d4d3e12a551359dbcb1782f1940c6d0f369d1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:11 +0000
Subject: [PATCH 092/108] fix: combining uniform domains truncated their
 origins to integers

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 2 +-
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp     | 6 +++---
 src/libs/blueprint/conduit_blueprint_mesh_utils.hpp     | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index a061a2c..c077a84 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -6906,7 +6906,7 @@ private:
             for(size_t i = 0; i < worigin.size(); i++)
             {
                 const auto difference = sorigin[i] - worigin[i];
-                offsets.push_back(difference / spacing[i]);
+                offsets.push_back((index_t)std::floor(difference / spacing[i] + 0.5));
             }
         }
         else if(mode == CombineImplicitMode::Rectilinear)
diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index 410e600..884dffb 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -1566,12 +1566,12 @@ coordset::uniform::spacing(const Node &n)
 }
 
 //-----------------------------------------------------------------------------
-std::vector<index_t>
+std::vector<double>
 coordset::uniform::origin(const Node &n)
 {
     auto info = get_coordset_info(n);
     const auto &cset_axes = info.second;
-    std::vector<index_t> retval(cset_axes.size(), 0);
+    std::vector<double> retval(cset_axes.size(), 0.);
     if(n.has_child("origin"))
     {
         const Node &n_spacing = n["origin"];
@@ -1580,7 +1580,7 @@ coordset::uniform::origin(const Node &n)
             const std::string child_name = cset_axes[i];
             if(n_spacing.has_child(child_name))
             {
-                retval[i] = n_spacing[child_name].to_index_t();
+                retval[i] = n_spacing[child_name].to_double();
             }
         }
     }
diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
index df5ad0c..16ae023 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
@@ -411,7 +411,7 @@ namespace coordset
         */
         std::vector<double> CONDUIT_BLUEPRINT_API spacing(const Node &n);
 
-        std::vector<index_t> CONDUIT_BLUEPRINT_API origin(const Node &n);
+        std::vector<double> CONDUIT_BLUEPRINT_API origin(const Node &n);
     }
 
     std::string CONDUIT_BLUEPRINT_API coordsys(const Node &coordset);
-- 
2.43.0


From d7900790a3e840d47bb11edcd84c8bccb8dbe185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:45 +0000
Subject: [PATCH 093/108] fix: centroids of elements that repeat a point three
 or more times counted it again

The mask of first occurrences went negative for a third occurrence, and the
loop used for more than 8 points read and wrote one entry past the end.
---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index f5b4d09..5e7b486 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -1447,7 +1447,7 @@ unique_mask(const Container &values, index_t offset, index_t n, int *mask)
             {
                 if(values[left[i]] == values[right[i]])
                 {
-                    mask[right[i]]--;
+                    mask[right[i]] = 0;
                     needmask = true;
                 }
             }
@@ -1458,7 +1458,7 @@ unique_mask(const Container &values, index_t offset, index_t n, int *mask)
             {
                 if(values[offset + left[i]] == values[offset + right[i]])
                 {
-                    mask[right[i]]--;
+                    mask[right[i]] = 0;
                     needmask = true;
                 }
             }
@@ -1472,11 +1472,11 @@ unique_mask(const Container &values, index_t offset, index_t n, int *mask)
         {
             for(int row = 0; row < n; row++)
             {
-                for(int col = row + 1; col <= n; col++)
+                for(int col = row + 1; col < n; col++)
                 {
                     if(values[row] == values[col])
                     {
-                        mask[col]--;
+                        mask[col] = 0;
                         needmask = true;
                     }
                 }
@@ -1486,11 +1486,11 @@ unique_mask(const Container &values, index_t offset, index_t n, int *mask)
         {
             for(int row = 0; row < n; row++)
             {
-                for(int col = row + 1; col <= n; col++)
+                for(int col = row + 1; col < n; col++)
                 {
                     if(values[offset + row] == values[offset + col])
                     {
-                        mask[col]--;
+                        mask[col] = 0;
                         needmask = true;
                     }
                 }
-- 
2.43.0


From 7f2649ac678e2ca1751d7488e040e8c400d1c982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:51 +0000
Subject: [PATCH 094/108] fix: painting an adjset again added to the counts of
 the first time

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 5e7b486..acd11fd 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -7487,6 +7487,8 @@ mesh::paint_adjset(const std::string &adjset_name,
         res_cnt_field["topology"] = topo_name;
         res_cnt_field["values"].set(DataType::int64(num_entries));
         int64_array res_cnt_vals = res_cnt_field["values"].value();
+        // the field may be left from an earlier call
+        res_cnt_vals.fill(0);
 
         // loop over groups
         for (const Node& group : adjset["groups"].children())
-- 
2.43.0


From d5e506411d854a8e08b5f282691e5dc8d3ed36f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:51 +0000
Subject: [PATCH 095/108] fix: generating lines or faces failed when only one
 of two domains had candidates to share

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index 884dffb..551449f 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -4056,8 +4056,10 @@ MatchQuery::execute()
         auto oppit = m_query.find(oppositeKey);
         if(oppit == m_query.end())
         {
-            CONDUIT_ERROR("MatchQuery is missing the topology for "
-                << dom << ":" << query_domain);
+            // The other domain has no candidate entities for this domain, so
+            // nothing can match.
+            it->second.results.clear();
+            continue;
         }
 
         // Get both of the topologies.
-- 
2.43.0


From 8c44757e0db7ad05fa4556a1df1865ac555252b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:51 +0000
Subject: [PATCH 096/108] fix: parallel match queries waited for answers of
 domains that had nothing to ask

---
 .../conduit_blueprint_mpi_mesh_utils.cpp      | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
index 1f9f7c6..ce48e43 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
@@ -385,6 +385,17 @@ MatchQuery::execute()
                    &allqueries[0], &qsize[0], &qoffset[0], MPI_INT,
                    m_comm);
 
+    // Look up whether a domain has candidate entities for another domain.
+    auto was_queried = [=](const std::vector<int> &allqueries, int d, int qd) -> bool
+    {
+        for(size_t i = 0; i < allqueries.size(); i += ntuple_values)
+        {
+            if(allqueries[i + 1] == d && allqueries[i + 2] == qd)
+                return true;
+        }
+        return false;
+    };
+
     // Look up a rank that owns a domain.
     auto domain_to_rank = [=](const std::vector<int> &allqueries, int d) -> int
     {
@@ -450,7 +461,8 @@ MatchQuery::execute()
             // The query was asked by this rank. We need to prepare to
             // receive the opposite query, which is the answer.
 
-            if(m_query.find(oppositeKey) == m_query.end())
+            if(m_query.find(oppositeKey) == m_query.end() &&
+               was_queried(allqueries, query_domain, domain))
             {
                 int remote = domain_to_rank(allqueries, query_domain);
 
@@ -499,11 +511,18 @@ MatchQuery::execute()
             // Try and get the geometries.
             auto it = m_query.find(key);
             auto oppit = m_query.find(oppositeKey);
-            if(it == m_query.end() || oppit == m_query.end())
+            if(it == m_query.end())
             {
                 CONDUIT_ERROR("MatchQuery is missing the topologies for "
                     << domain << ":" << query_domain);
             }
+            if(oppit == m_query.end())
+            {
+                // The other domain has no candidate entities for this domain,
+                // so nothing can match.
+                it->second.results.clear();
+                continue;
+            }
 
             // Get both of the topologies.
             conduit::Node &mesh1 = it->second.query_mesh;
-- 
2.43.0


From 29814f09b03c67045aff219d165e8ae7bb54a4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:51 +0000
Subject: [PATCH 097/108] fix: parallel point queries overran a buffer when
 domain ids are not 0 to n-1

---
 .../conduit_blueprint_mpi_mesh_utils.cpp        | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
index ce48e43..79cb7b2 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
@@ -78,19 +78,21 @@ PointQuery::execute(const std::string &coordsetName)
     MPI_Comm_size(m_comm, &size);
 
     // Figure out which ranks own the domains. Get the domain ids on this rank
-    // and sum the number of domains on all ranks.
+    // and find the largest domain id on all ranks.
     std::vector<int> localDomains = domainIds();
-    int ndoms = static_cast<int>(localDomains.size());
+    int ndoms = 1;
+    for(auto dom : localDomains)
+        ndoms = std::max(ndoms, dom + 1);
     int ntotal_doms = 0;
-    MPI_Allreduce(&ndoms, &ntotal_doms, 1, MPI_INT, MPI_SUM, m_comm);
+    MPI_Allreduce(&ndoms, &ntotal_doms, 1, MPI_INT, MPI_MAX, m_comm);
 
     // Make sure each rank knows who owns which domains. This assumes that
     // the domains were set properly and only occur on one rank.
-    std::vector<int> local_domain_to_rank(ntotal_doms, 0);
-    std::vector<int> domain_to_rank(ntotal_doms, 0);
+    std::vector<int> local_domain_to_rank(ntotal_doms, -1);
+    std::vector<int> domain_to_rank(ntotal_doms, -1);
     for(auto dom : localDomains)
         local_domain_to_rank[dom] = rank;
-    MPI_Allreduce(&local_domain_to_rank[0], &domain_to_rank[0], ntotal_doms, MPI_INT, MPI_SUM, m_comm);
+    MPI_Allreduce(&local_domain_to_rank[0], &domain_to_rank[0], ntotal_doms, MPI_INT, MPI_MAX, m_comm);
 
     // Put together the queries that we need to run.
     std::vector<int> queries;
@@ -161,7 +163,8 @@ PointQuery::execute(const std::string &coordsetName)
     for(size_t i = 0; i < allqueries.size(); i += 3)
     {
         int domain = allqueries[i+1];
-        if(domain < 0 || domain >= static_cast<int>(domain_to_rank.size()))
+        if(domain < 0 || domain >= static_cast<int>(domain_to_rank.size()) ||
+           domain_to_rank[domain] < 0)
         {
             CONDUIT_ERROR("An adjacency set referenced domain " << domain
                 << ", which is not a valid domain in the input mesh.");
-- 
2.43.0


From 31b3a4aadff72724ccadd7bbe82ca3b6fa0a3fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:29 +0000
Subject: [PATCH 098/108] fix: sides, corners and centroids listed entities as
 shared that the neighbor domain does not have

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 45 +++++++++++++++----
 src/libs/blueprint/conduit_blueprint_mesh.hpp | 20 +++++++++
 .../blueprint/conduit_blueprint_mpi_mesh.cpp  | 14 ++++--
 3 files changed, 66 insertions(+), 13 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index acd11fd..da7b40b 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -3582,7 +3582,8 @@ mesh::generate_centroids(conduit::Node& mesh,
                          const std::string& dst_topo_name,
                          const std::string& dst_cset_name,
                          conduit::Node& s2dmap,
-                         conduit::Node& d2smap)
+                         conduit::Node& d2smap,
+                         conduit::blueprint::mesh::utils::query::PointQueryBase &query)
 {
     const static auto identify_centroid = []
         (const bputils::TopologyMetadata &/*topo_data*/, const index_t ei, const index_t /*di*/)
@@ -3600,14 +3601,27 @@ mesh::generate_centroids(conduit::Node& mesh,
     const std::vector<index_t> centroid_dims = calculate_decomposed_dims(
         mesh, src_adjset_name, calculate_centroid_dims);
 
-    conduit::blueprint::mesh::utils::query::PointQueryBase query(mesh);
-
     generate_decomposed_entities(
         mesh, src_adjset_name, dst_adjset_name, dst_topo_name, dst_cset_name, s2dmap, d2smap,
         conduit::blueprint::mesh::topology::unstructured::generate_centroids, identify_centroid, centroid_dims,
         query);
 }
 
+//-----------------------------------------------------------------------------
+void
+mesh::generate_centroids(conduit::Node& mesh,
+                         const std::string& src_adjset_name,
+                         const std::string& dst_adjset_name,
+                         const std::string& dst_topo_name,
+                         const std::string& dst_cset_name,
+                         conduit::Node& s2dmap,
+                         conduit::Node& d2smap)
+{
+    conduit::blueprint::mesh::utils::query::PointQuery query(mesh);
+    generate_centroids(mesh, src_adjset_name, dst_adjset_name, dst_topo_name, dst_cset_name,
+                       s2dmap, d2smap, query);
+}
+
 
 //-----------------------------------------------------------------------------
 void
@@ -3617,7 +3631,8 @@ mesh::generate_sides(conduit::Node& mesh,
                      const std::string& dst_topo_name,
                      const std::string& dst_cset_name,
                      conduit::Node& s2dmap,
-                     conduit::Node& d2smap)
+                     conduit::Node& d2smap,
+                     conduit::blueprint::mesh::utils::query::PointQueryBase &query)
 {
     const static auto identify_side = []
         (const bputils::TopologyMetadata &topo_data, const index_t ei, const index_t di)
@@ -3652,14 +3667,27 @@ mesh::generate_sides(conduit::Node& mesh,
     const std::vector<index_t> side_dims = calculate_decomposed_dims(
         mesh, src_adjset_name, calculate_side_dims);
 
-    conduit::blueprint::mesh::utils::query::PointQueryBase query(mesh);
-
     generate_decomposed_entities(
         mesh, src_adjset_name, dst_adjset_name, dst_topo_name, dst_cset_name, s2dmap, d2smap,
         conduit::blueprint::mesh::topology::unstructured::generate_sides, identify_side, side_dims,
         query);
 }
 
+//-----------------------------------------------------------------------------
+void
+mesh::generate_sides(conduit::Node& mesh,
+                     const std::string& src_adjset_name,
+                     const std::string& dst_adjset_name,
+                     const std::string& dst_topo_name,
+                     const std::string& dst_cset_name,
+                     conduit::Node& s2dmap,
+                     conduit::Node& d2smap)
+{
+    conduit::blueprint::mesh::utils::query::PointQuery query(mesh);
+    generate_sides(mesh, src_adjset_name, dst_adjset_name, dst_topo_name, dst_cset_name,
+                   s2dmap, d2smap, query);
+}
+
 //-----------------------------------------------------------------------------
 void
 mesh::generate_corners(conduit::Node& mesh,
@@ -3717,9 +3745,8 @@ mesh::generate_corners(conduit::Node& mesh,
                        conduit::Node& s2dmap,
                        conduit::Node& d2smap)
 {
-    // Q: Should we use PointQuery instead so it actually checks for non-existent points?
-    //    The PointQueryBase will preserve prior behavior.
-    conduit::blueprint::mesh::utils::query::PointQueryBase query(mesh);
+    // PointQuery checks that the points exist in the neighbor domains.
+    conduit::blueprint::mesh::utils::query::PointQuery query(mesh);
     generate_corners(mesh, src_adjset_name, dst_adjset_name, dst_topo_name, dst_cset_name,
                      s2dmap, d2smap, query);
 }
diff --git a/src/libs/blueprint/conduit_blueprint_mesh.hpp b/src/libs/blueprint/conduit_blueprint_mesh.hpp
index daa81d1..1b1ac17 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.hpp
@@ -295,6 +295,16 @@ void CONDUIT_BLUEPRINT_API generate_faces(conduit::Node &mesh,
                                           conduit::Node& s2dmap,
                                           conduit::Node& d2smap);
 
+//-------------------------------------------------------------------------
+void CONDUIT_BLUEPRINT_API generate_centroids(conduit::Node& mesh,
+                                              const std::string& src_adjset_name,
+                                              const std::string& dst_adjset_name,
+                                              const std::string& dst_topo_name,
+                                              const std::string& dst_cset_name,
+                                              conduit::Node& s2dmap,
+                                              conduit::Node& d2smap,
+                                              conduit::blueprint::mesh::utils::query::PointQueryBase &query);
+
 //-------------------------------------------------------------------------
 void CONDUIT_BLUEPRINT_API generate_centroids(conduit::Node& mesh,
                                               const std::string& src_adjset_name,
@@ -304,6 +314,16 @@ void CONDUIT_BLUEPRINT_API generate_centroids(conduit::Node& mesh,
                                               conduit::Node& s2dmap,
                                               conduit::Node& d2smap);
 
+//-------------------------------------------------------------------------
+void CONDUIT_BLUEPRINT_API generate_sides(conduit::Node& mesh,
+                                          const std::string& src_adjset_name,
+                                          const std::string& dst_adjset_name,
+                                          const std::string& dst_topo_name,
+                                          const std::string& dst_cset_name,
+                                          conduit::Node& s2dmap,
+                                          conduit::Node& d2smap,
+                                          conduit::blueprint::mesh::utils::query::PointQueryBase &query);
+
 //-------------------------------------------------------------------------
 void CONDUIT_BLUEPRINT_API generate_sides(conduit::Node& mesh,
                                           const std::string& src_adjset_name,
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
index 25a82d2..ae43a54 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
@@ -2634,15 +2634,18 @@ generate_centroids(conduit::Node& mesh,
                    const std::string& dst_cset_name,
                    conduit::Node& s2dmap,
                    conduit::Node& d2smap,
-                   MPI_Comm /*comm*/)
+                   MPI_Comm comm)
 {
+    conduit::blueprint::mpi::mesh::utils::query::PointQuery Q(mesh, comm);
+
     conduit::blueprint::mesh::generate_centroids(mesh,
                                                  src_adjset_name,
                                                  dst_adjset_name,
                                                  dst_topo_name,
                                                  dst_cset_name,
                                                  s2dmap,
-                                                 d2smap);
+                                                 d2smap,
+                                                 Q);
 }
 
 
@@ -2655,15 +2658,18 @@ generate_sides(conduit::Node& mesh,
                const std::string& dst_cset_name,
                conduit::Node& s2dmap,
                conduit::Node& d2smap,
-               MPI_Comm /*comm*/)
+               MPI_Comm comm)
 {
+    conduit::blueprint::mpi::mesh::utils::query::PointQuery Q(mesh, comm);
+
     conduit::blueprint::mesh::generate_sides(mesh,
                                              src_adjset_name,
                                              dst_adjset_name,
                                              dst_topo_name,
                                              dst_cset_name,
                                              s2dmap,
-                                             d2smap);
+                                             d2smap,
+                                             Q);
 
 }
 
-- 
2.43.0


From 8c1a6986ddc0ad304bfc9e49d0e25d08f85fc271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:27 +0000
Subject: [PATCH 099/108] fix: parallel validation of vertex adjsets rejected
 every adjset between ranks

---
 .../conduit_blueprint_mesh_utils.cpp          | 12 ++++-
 .../conduit_blueprint_mpi_mesh_utils.cpp      | 52 +++++++++++++++++++
 2 files changed, 62 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index 551449f..dc9ecfc 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -17,6 +17,7 @@
 #include <limits>
 #include <map>
 #include <memory>
+#include <set>
 #include <sstream>
 #include <vector>
 #include <unordered_map>
@@ -3095,8 +3096,15 @@ adjset::validate(const conduit::Node &doms,
 
         // Detect any non-bidirectional interfaces.
         retval = true;
+        std::set<index_t> localIds;
+        for(const auto dom : domains)
+            localIds.insert(conduit::blueprint::mesh::utils::find_domain_id(*dom));
         for(auto it = bidirectional.begin(); it != bidirectional.end(); it++)
         {
+            // The groups of domains that are on other ranks are not known here.
+            if(!checkMultiDomain && localIds.find(it->first.first) == localIds.end())
+                continue;
+
             if(!it->second)
             {
                 retval = false;
@@ -3137,8 +3145,8 @@ adjset::validate(const conduit::Node &doms,
                 ss << "Domain " << domain_id << " adjset " << adjsetName
                    << " group " << groupName
                    << ": vertex " << ptid
-                   << " (" << coord[0] << ", " << coord[1]
-                   << ", " << coord[2] << ") at index " << ptid
+                   << " (" << coord[0] << ", " << ((coord.size() > 1) ? coord[1] : 0.)
+                   << ", " << ((coord.size() > 2) ? coord[2] : 0.) << ") at index " << ptid
                    << " could not be located in neighbor domain "
                    << nbr << ".";
 
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
index 79cb7b2..868b44e 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
@@ -23,7 +23,9 @@
 #include "conduit_relay_io.hpp"
 #endif
 
+#include <algorithm>
 #include <cstring>
+#include <set>
 
 //-----------------------------------------------------------------------------
 // -- begin conduit --
@@ -653,6 +655,56 @@ adjset::validate(const Node &doms,
                  adjsetName, association, topologyName, coordsetName,
                  info, PQ, MQ, checkMultiDomain);
 
+    // Make sure that references between domains on different ranks go both ways.
+    if(association == "vertex")
+    {
+        std::vector<int> refs;
+        for(const auto dom : domains)
+        {
+            const std::string groupsPath("adjsets/" + adjsetName + "/groups");
+            if(!dom->has_path(groupsPath))
+                continue;
+            const int domain_id = static_cast<int>(
+                conduit::blueprint::mesh::utils::find_domain_id(*dom));
+            for(const Node &group : dom->fetch_existing(groupsPath).children())
+            {
+                conduit::index_t_accessor neighbors = group["neighbors"].value();
+                for(index_t ni = 0; ni < neighbors.number_of_elements(); ni++)
+                {
+                    refs.push_back(domain_id);
+                    refs.push_back(static_cast<int>(neighbors[ni]));
+                }
+            }
+        }
+
+        int size = 1;
+        MPI_Comm_size(comm, &size);
+        int nrefs = static_cast<int>(refs.size());
+        std::vector<int> counts(size, 0), offsets(size, 0);
+        MPI_Allgather(&nrefs, 1, MPI_INT, counts.data(), 1, MPI_INT, comm);
+        for(int i = 1; i < size; i++)
+            offsets[i] = offsets[i-1] + counts[i-1];
+        std::vector<int> allrefs(offsets[size-1] + counts[size-1], 0);
+        MPI_Allgatherv(refs.data(), nrefs, MPI_INT,
+                       allrefs.data(), counts.data(), offsets.data(), MPI_INT,
+                       comm);
+
+        std::set<std::pair<int,int>> have;
+        for(size_t i = 0; i < allrefs.size(); i += 2)
+            have.insert(std::make_pair(allrefs[i], allrefs[i+1]));
+        for(size_t i = 0; i < refs.size(); i += 2)
+        {
+            if(have.find(std::make_pair(refs[i+1], refs[i])) == have.end())
+            {
+                retval = false;
+                std::stringstream ss;
+                ss << "Domain " << refs[i+1] << " adjset " << adjsetName
+                   << " does not contain a group that references domain " << refs[i] << ".";
+                info[adjsetName].append().set(ss.str());
+            }
+        }
+    }
+
     // Make sure all ranks agree on the answer.
     retval = agree(retval, comm);
     return retval;
-- 
2.43.0


From 7c2c82000e416fcd56992d2f1d4c50b603a89f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:20 +0000
Subject: [PATCH 100/108] fix: partition copied the wrong materials from
 matsets that use indices

---
 .../blueprint/conduit_blueprint_mesh_partition.cpp    | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index c077a84..4205241 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -2281,20 +2281,19 @@ copy_uni_buffer_matset_impl(
 
         // Get the number of "many" elements for this element_id
         const index_t size = indexer.elements(conduit::blueprint::o2mrelation::MANY);
-        index_t idx  = indexer.index(conduit::blueprint::o2mrelation::DATA);
 
 #if 0
         std::cout << "element_id = " << element_id
-            << "\nsize = " << size
-            << "\nidx = " << idx << std::endl;
+            << "\nsize = " << size << std::endl;
 #endif
 
         // Copy each item in the O2M relation
         for(index_t j = 0; j < size; j++)
         {
+            indexer.to(j, conduit::blueprint::o2mrelation::MANY);
+            const index_t idx = indexer.index(conduit::blueprint::o2mrelation::DATA);
             out_material_ids[offset]     = in_material_ids[idx];
             out_volume_fractions[offset] = in_volume_fractions[idx];
-            idx++;
             offset++;
         }
     }
@@ -2570,14 +2569,14 @@ copy_material_based_uni_buffer(const std::vector<index_t> &element_ids,
 
         // Get the number of "many" elements for this element_id
         const index_t size = indexer.elements(conduit::blueprint::o2mrelation::MANY);
-        index_t idx  = indexer.index(conduit::blueprint::o2mrelation::DATA);
 
         // Copy each item in the O2M relation
         for(index_t j = 0; j < size; j++)
         {
+            indexer.to(j, conduit::blueprint::o2mrelation::MANY);
+            const index_t idx = indexer.index(conduit::blueprint::o2mrelation::DATA);
             out_mat_ids[offset] = in_material_ids[idx];
             out_vfracts[offset] = in_volume_fractions[idx];
-            idx++;
             offset++;
         }
     }
-- 
2.43.0


From e18b694adcc778050affeb8d37486c8d01fca80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:12 +0000
Subject: [PATCH 101/108] fix: partition lost the material_map entries of
 materials that no element of a part contains

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 4205241..99049bb 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -9474,6 +9474,13 @@ combine(const std::vector<Node> &inputs,
         }
     }
 
+    // The materials of the material_map must exist in the output, even if
+    // none of the elements contains them.
+    for(const auto &mat : material_map)
+    {
+        out_vfracts_eids[mat.second];
+    }
+
     out_matset["topology"].set(out_topo.name());
     for(const auto &pair : out_vfracts_eids)
     {
-- 
2.43.0


From 13b2e76ace6c1a59f217d78b963dc19add5dd3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:55 +0000
Subject: [PATCH 102/108] fix: read_csv crashed on files without column names

---
 src/libs/relay/conduit_relay_io_csv.cpp | 40 +++++++++++--------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_csv.cpp b/src/libs/relay/conduit_relay_io_csv.cpp
index b00c22a..2547b72 100644
--- a/src/libs/relay/conduit_relay_io_csv.cpp
+++ b/src/libs/relay/conduit_relay_io_csv.cpp
@@ -245,8 +245,8 @@ add_column(const std::string &name, Node &values)
 
 //-----------------------------------------------------------------------------
 static void
-add_columns(Node &values, std::vector<std::string> &col_names,
-    index_t ncols, const DataType &dtype)
+add_columns(Node &values, const std::vector<std::string> &col_names,
+    index_t ncols, const DataType &dtype, std::vector<Node*> &cols)
 {
     if(col_names.empty())
     {
@@ -254,7 +254,7 @@ add_columns(Node &values, std::vector<std::string> &col_names,
         {
             Node &col = add_column("", values);
             col.set_dtype(dtype);
-            col_names.push_back(col.name());
+            cols.push_back(&col);
         }
     }
     else
@@ -263,6 +263,7 @@ add_columns(Node &values, std::vector<std::string> &col_names,
         {
             Node &col = add_column(name, values);
             col.set_dtype(dtype);
+            cols.push_back(&col);
         }
     }
 }
@@ -314,19 +315,21 @@ read_column_names(const std::string &line, std::vector<std::string> &col_names,
         }
     }
 
+    const index_t ncols = static_cast<index_t>(col_names.size());
+
     // If all numbers then this row should not be treated as column names
     if(all_numbers)
     {
         col_names.clear();
     }
-    return static_cast<index_t>(col_names.size());
+    return ncols;
 }
 
 //-----------------------------------------------------------------------------
 template<typename FloatType>
 void
 read_csv_data(std::ifstream &fin, const std::ifstream::pos_type &offset,
-    const std::vector<std::string> &col_names, Node &values,
+    const std::vector<Node*> &cols,
     const char sep = ',')
 {
     static_assert(std::is_floating_point<FloatType>().value,
@@ -343,18 +346,13 @@ read_csv_data(std::ifstream &fin, const std::ifstream::pos_type &offset,
         while(end != std::string::npos)
         {
             const auto len = end - start;
-            if(icol > col_names.size())
+            if(icol > cols.size())
             {
                 CONDUIT_ERROR("Error while reading file, row " << row << " contains too many column entries!");
                 return;
             }
 
-            Node *n = values.fetch_ptr(col_names[icol]);
-            if(!n)
-            {
-                CONDUIT_ERROR("The allocated output table does not contain the path " << quote(col_names[icol]) << ".");
-                return;
-            }
+            Node *n = cols[icol];
 
             std::string data = line.substr(start, len);
             try
@@ -389,18 +387,13 @@ read_csv_data(std::ifstream &fin, const std::ifstream::pos_type &offset,
             end = line.find(sep, start);
         }
         // Get the last name
-        if(icol > col_names.size())
+        if(icol > cols.size())
         {
             CONDUIT_ERROR("Error while reading file, row " << row << " contains too many column entries!");
             return;
         }
 
-        Node *n = values.fetch_ptr(col_names[icol]);
-        if(!n)
-        {
-            CONDUIT_ERROR("The allocated output table does not contain the path " << quote(col_names[icol]) << ".");
-            return;
-        }
+        Node *n = cols[icol];
 
         std::string data = line.substr(start);
         try
@@ -476,20 +469,21 @@ read_single_table(const std::string &path, const bool use_float64, Node &table)
     const DataType dtype((use_float64) ? DataType::FLOAT64_ID : DataType::FLOAT32_ID,
         nrows);
     Node &values = table["values"];
-    add_columns(values, column_names, ncols, dtype);
+    std::vector<Node*> columns;
+    add_columns(values, column_names, ncols, dtype, columns);
 
     if(dtype.is_float())
     {
-        read_csv_data<float>(fin, data_start, column_names, values);
+        read_csv_data<float>(fin, data_start, columns);
     }
     else if(dtype.is_double())
     {
-        read_csv_data<double>(fin, data_start, column_names, values);
+        read_csv_data<double>(fin, data_start, columns);
     }
 #ifdef CONDUIT_HAS_LONG_DOUBLE
     else if(dtype.is_long_double())
     {
-        read_csv_data<long double>(fin, data_start, column_names, values);
+        read_csv_data<long double>(fin, data_start, columns);
     }
 #endif
     else
-- 
2.43.0


From 9224c45fc5e0f325d10130d49c4a71d47084a7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:55 +0000
Subject: [PATCH 103/108] fix: read_csv read out of bounds for rows with one
 entry too many

---
 src/libs/relay/conduit_relay_io_csv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_csv.cpp b/src/libs/relay/conduit_relay_io_csv.cpp
index 2547b72..75c01c9 100644
--- a/src/libs/relay/conduit_relay_io_csv.cpp
+++ b/src/libs/relay/conduit_relay_io_csv.cpp
@@ -346,7 +346,7 @@ read_csv_data(std::ifstream &fin, const std::ifstream::pos_type &offset,
         while(end != std::string::npos)
         {
             const auto len = end - start;
-            if(icol > cols.size())
+            if(icol >= cols.size())
             {
                 CONDUIT_ERROR("Error while reading file, row " << row << " contains too many column entries!");
                 return;
@@ -387,7 +387,7 @@ read_csv_data(std::ifstream &fin, const std::ifstream::pos_type &offset,
             end = line.find(sep, start);
         }
         // Get the last name
-        if(icol > cols.size())
+        if(icol >= cols.size())
         {
             CONDUIT_ERROR("Error while reading file, row " << row << " contains too many column entries!");
             return;
-- 
2.43.0


From c27e6b83e76bacbd2df09a49328e74e34822c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:55 +0000
Subject: [PATCH 104/108] fix: write_csv rounded floating point values to six
 digits

---
 src/libs/relay/conduit_relay_io_csv.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libs/relay/conduit_relay_io_csv.cpp b/src/libs/relay/conduit_relay_io_csv.cpp
index 75c01c9..d8decc7 100644
--- a/src/libs/relay/conduit_relay_io_csv.cpp
+++ b/src/libs/relay/conduit_relay_io_csv.cpp
@@ -138,6 +138,9 @@ write_row_based(const Node &table, const std::string &path)
         return;
     }
 
+    // Use enough digits to recover the floating point values
+    fout.precision(std::numeric_limits<float64>::max_digits10);
+
     // First line, column names
     write_header(values, fout);
 
-- 
2.43.0


From 35eb54b1d1c4e0f0b535b73301cfb6121ee89d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:18 +0000
Subject: [PATCH 105/108] fix: read_csv added the tables of a directory to what
 the node held

---
 src/libs/relay/conduit_relay_io_csv.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libs/relay/conduit_relay_io_csv.cpp b/src/libs/relay/conduit_relay_io_csv.cpp
index d8decc7..0cb0be0 100644
--- a/src/libs/relay/conduit_relay_io_csv.cpp
+++ b/src/libs/relay/conduit_relay_io_csv.cpp
@@ -499,6 +499,8 @@ read_single_table(const std::string &path, const bool use_float64, Node &table)
 static void
 read_many_tables(const std::string &path, const bool use_float64, Node &table)
 {
+    table.reset();
+
     // Path must've been a directory
     std::vector<std::string> dir_contents;
     utils::list_directory_contents(path, dir_contents);
-- 
2.43.0


From ac0e995a5b8eacb4fea1126b6d9c21abe9efe483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:59 +0000
Subject: [PATCH 106/108] fix: generate_sides with fields needed sizes, which
 topologies of a fixed shape do not have

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index da7b40b..8b46c88 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -5338,7 +5338,7 @@ namespace detail
         bool vert_assoc = false; // true if the current field is vertex associated
         int dimensions = 0; // are we in 2D or 3D?
         int new_num_shapes = 0; // the number of new triangles or tetrahedrons
-        int num_orig_shapes = topo_src["elements/sizes"].dtype().number_of_elements(); // the number of original polygons or polyhedra
+        int num_orig_shapes = static_cast<int>(bputils::topology::length(topo_src)); // the number of original polygons or polyhedra
         Node volumes_info; // a container for the volumes of old shapes and the ratio between new and old volumes for each new shape
         bool volumes_calculated = false; // so we only calculate the volumes once as we go through the while loop
         float64_accessor volume_ratio; // a float64 accessor to the ratio between new and old volumes for each new shape
-- 
2.43.0


From 0b8c9dbb3ac46451ccb41fb6110107155b96f590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:59 +0000
Subject: [PATCH 107/108] fix: generate_sides ignored z when it split volume
 dependent fields of polygons in space

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 8b46c88..6c94979 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -5115,7 +5115,28 @@ namespace detail
         float64_accessor coords_x = coordset_dest["values/x"].value();
         float64_accessor coords_y = coordset_dest["values/y"].value();
 
-        if (dimensions == 2)
+        if (dimensions == 2 && coordset_dest["values"].has_child("z"))
+        {
+            // polygons in space
+            float64_accessor coords_z = coordset_dest["values/z"].value();
+
+            for (int i = 0; i < new_num_shapes; i ++)
+            {
+                vec3 a = vec3(static_cast<float64>(coords_x[connec[i * 3 + 0]]),
+                              static_cast<float64>(coords_y[connec[i * 3 + 0]]),
+                              static_cast<float64>(coords_z[connec[i * 3 + 0]]));
+                vec3 b = vec3(static_cast<float64>(coords_x[connec[i * 3 + 1]]),
+                              static_cast<float64>(coords_y[connec[i * 3 + 1]]),
+                              static_cast<float64>(coords_z[connec[i * 3 + 1]]));
+                vec3 c = vec3(static_cast<float64>(coords_x[connec[i * 3 + 2]]),
+                              static_cast<float64>(coords_y[connec[i * 3 + 2]]),
+                              static_cast<float64>(coords_z[connec[i * 3 + 2]]));
+
+                vec3 n = (b - a).cross(c - a);
+                tri_volumes[i] = 0.5 * sqrt(n.dot(n));
+            }
+        }
+        else if (dimensions == 2)
         {
             for (int i = 0; i < new_num_shapes; i ++)
             {
-- 
2.43.0


From d8e05c5afa5a42a5db1b065b45a5b9cfa9f1bc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:59 +0000
Subject: [PATCH 108/108] fix: generate_sides rounded the values of 64 bit
 integer fields

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 6c94979..1201b2f 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -5318,6 +5318,25 @@ namespace detail
                                     dimensions,
                                     field_values);
         }
+        // integer fields keep their values, float64 can not hold all of them
+        else if (!vol_dep && field_src["values"].dtype().is_signed_integer())
+        {
+            int64_accessor int_values = field_out["values"].value();
+            int64_accessor poly_int_data = field_src["values"].value();
+            for (int i = 0; i < new_num_shapes; i ++)
+            {
+                int_values.set(i, poly_int_data[tri_to_poly[i]]);
+            }
+        }
+        else if (!vol_dep && field_src["values"].dtype().is_unsigned_integer())
+        {
+            uint64_accessor uint_values = field_out["values"].value();
+            uint64_accessor poly_uint_data = field_src["values"].value();
+            for (int i = 0; i < new_num_shapes; i ++)
+            {
+                uint_values.set(i, poly_uint_data[tri_to_poly[i]]);
+            }
+        }
         else
         {
             for (int i = 0; i < new_num_shapes; i ++)
-- 
2.43.0

