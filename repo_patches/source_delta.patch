From 6075f9491ab926d3abcfcd7c271d49858f67af61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:13 +0000
Subject: [PATCH 01/62] fix: v1 encoder lost absent top-level fields with copy,
 increment, delta and tail operators

---
 src/mfast/coder/encoder/fast_encoder.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 71403e2..17a396f 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -207,12 +207,15 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
 
   aggregate_cref message(cref.field_storage(0), instruction);
 
-  for (auto &&field : message)
-  {
-    if (field.present() || field.instruction()->field_operator() == operator_none)
-      apply_accessor(*this, field);
-    else if (!field.present() && field.instruction()->pmap_size())
+  for (auto &&field : message) {
+    // an absent field is left out of the stream only where its operator can
+    // express absence that way; all others have to encode a NULL.
+    if (field.absent() &&
+        field.instruction()->field_operator() == operator_default &&
+        field.instruction()->field_type() != field_type_exponent)
       current_pmap().set_next_bit(false);
+    else
+      apply_accessor(*this, field);
   }
 
   pmap.commit();
-- 
2.43.0


From 6f80417e2f6ffc93b2e232ff286244d6df21ade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:13 +0000
Subject: [PATCH 02/62] fix: encoders took an absent string or incremented
 value for an unchanged one

---
 src/mfast/coder/encoder/encoder_field_operator.cpp | 5 +++--
 src/mfast/coder/encoder_v2/fast_encoder_core.h     | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index 2dfbbab..3924d54 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -269,7 +269,7 @@ struct is_same {
 
   template <typename T>
   bool operator()(const vector_cref<T> &v, const value_storage &prev) const {
-    return v.size() == prev.of_array.len_ - 1 &&
+    return v.absent() == prev.is_empty() && v.size() == prev.array_length() &&
            memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) == 0;
   }
 };
@@ -325,7 +325,8 @@ public:
 struct is_increment {
   template <typename T>
   bool operator()(const T &v, const value_storage &previous) const {
-    return v.value() == previous.get<const typename T::value_type>() + 1;
+    return v.present() &&
+           v.value() == previous.get<const typename T::value_type>() + 1;
   }
 };
 
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 5a00730..d76fe0d 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -36,7 +36,7 @@ inline bool equivalent(const enum_cref &v, const value_storage &prev) {
 
 template <typename T>
 inline bool equivalent(const vector_cref<T> &v, const value_storage &prev) {
-  return v.size() == prev.of_array.len_ - 1 &&
+  return v.absent() == prev.is_empty() && v.size() == prev.array_length() &&
          memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) == 0;
 }
 
@@ -446,8 +446,9 @@ void fast_encoder_core::encode_field(const T &ext_ref, increment_operator_tag,
       // modified by another instruction with the same key and that intruction
       // has optional presence.
     }
-  } else if (cref.value() ==
-             previous.get<const typename T::cref_type::value_type>() + 1) {
+  } else if (cref.present() &&
+             cref.value() ==
+                 previous.get<const typename T::cref_type::value_type>() + 1) {
     pmap.set_next_bit(false);
     return;
   }
-- 
2.43.0


From 4c6b1091e04590dcbd0eb83e68d5d2223bbdae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:13 +0000
Subject: [PATCH 03/62] fix: is_initial_value() of strings and vectors confused
 absent with empty

---
 src/mfast/vector_ref.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index c453bc4..1385f96 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -61,8 +61,10 @@ public:
   size_t size() const { return storage_->array_length(); }
   size_t length() const { return size(); }
   bool is_initial_value() const {
-    return *this == vector_cref_base<T, InstructionType>(
-                        &this->instruction()->initial_value(), instruction());
+    const value_storage &initial = this->instruction()->initial_value();
+    return this->absent() == initial.is_empty() &&
+           *this ==
+               vector_cref_base<T, InstructionType>(&initial, instruction());
   }
 
   const_iterator begin() const { return data(); }
-- 
2.43.0


From 6063f1b1f2c9c72cde50fdbd4b39b9a7f8734fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:13 +0000
Subject: [PATCH 04/62] fix: equality of integer vectors compared only part of
 the elements

---
 src/mfast/vector_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 1385f96..a2607ba 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -113,7 +113,7 @@ bool operator==(const vector_cref_base<T, InstructionType> &lhs,
     return false;
   if (lhs.data() == rhs.data())
     return true;
-  return std::memcmp(lhs.data(), rhs.data(), lhs.size()) == 0;
+  return std::memcmp(lhs.data(), rhs.data(), lhs.size() * sizeof(T)) == 0;
 }
 
 template <typename T, typename InstructionType>
-- 
2.43.0


From ad4514266904230d727f4313746df966f163cacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:13 +0000
Subject: [PATCH 05/62] fix: string delta encoding read past the end of a
 shorter previous value

---
 src/mfast/coder/encoder/encoder_field_operator.cpp | 6 ++++--
 src/mfast/coder/encoder_v2/fast_encoder_core.h     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index 3924d54..455ac8a 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -473,11 +473,13 @@ class delta_operator : public encoder_field_operator,
         difference_type;
 
     std::pair<const_iterator, const_iterator> common_prefix_positions =
-        std::mismatch(cref.begin(), cref.end(), prev_cref.begin());
+        std::mismatch(cref.begin(), cref.end(), prev_cref.begin(),
+                      prev_cref.end());
 
     std::pair<const_reverse_iterator, const_reverse_iterator>
         common_suffix_positions =
-            std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin());
+            std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin(),
+                          prev_cref.rend());
 
     int32_t substraction_len;
     const_iterator delta_iterator;
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index d76fe0d..e018361 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -543,11 +543,13 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
       difference_type;
 
   std::pair<const_iterator, const_iterator> common_prefix_positions =
-      std::mismatch(cref.begin(), cref.end(), prev_cref.begin());
+      std::mismatch(cref.begin(), cref.end(), prev_cref.begin(),
+                    prev_cref.end());
 
   std::pair<const_reverse_iterator, const_reverse_iterator>
       common_suffix_positions =
-          std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin());
+          std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin(),
+                        prev_cref.rend());
 
   int32_t substraction_len;
   const_iterator delta_iterator;
-- 
2.43.0


From 3a155b91ddd571b7c9f66fc6086a7fd6f4c890d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:13 +0000
Subject: [PATCH 06/62] fix: tail operator left values out of the stream that
 the decoder could not infer

---
 .../coder/encoder/encoder_field_operator.cpp  | 27 +++++++------------
 .../coder/encoder_v2/fast_encoder_core.h      | 17 +++++++-----
 2 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index 455ac8a..a272869 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -595,25 +595,18 @@ private:
 
     value_storage &prev = previous_value_of(cref);
 
-    // if (cref.absent()) {
-    //   if (!prev.is_defined() || prev.is_empty()) {
-    //     pmap.set_next_bit(false);
-    //   }
-    //   else {
-    //     pmap.set_next_bit(true);
-    //     stream.encode_null();
-    //   }
-    // }
-    // else
-    if (is_same()(cref, tail_base_value_of(cref))) {
+    // If the tail value is not present in the stream, the decoder uses
+    // undefined - the initial value (or absent without one)
+    // empty     - absent
+    // assigned  - the previous value
+    bool omitted = !prev.is_defined() ? cref.is_initial_value()
+                                      : prev.is_empty() ? cref.absent()
+                                                        : is_same()(cref, prev);
+    if (omitted) {
       pmap.set_next_bit(false);
     } else if (cref.absent()) {
-      if (prev.is_defined() && prev.is_empty()) {
-        pmap.set_next_bit(false);
-      } else {
-        pmap.set_next_bit(true);
-        stream.encode_null();
-      }
+      pmap.set_next_bit(true);
+      stream.encode_null();
     } else {
       pmap.set_next_bit(true);
 
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index e018361..be2d9e5 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -619,15 +619,18 @@ void fast_encoder_core::encode_field(const T &ext_ref, tail_operator_tag,
 
   value_storage &prev = previous_value_of(cref);
 
-  if (equivalent(cref, tail_base_value_of(cref))) {
+  // If the tail value is not present in the stream, the decoder uses
+  // undefined - the initial value (or absent without one)
+  // empty     - absent
+  // assigned  - the previous value
+  bool omitted = !prev.is_defined() ? cref.is_initial_value()
+                                    : prev.is_empty() ? cref.absent()
+                                                      : equivalent(cref, prev);
+  if (omitted) {
     pmap.set_next_bit(false);
   } else if (!ext_ref.present()) {
-    if (prev.is_defined() && prev.is_empty()) {
-      pmap.set_next_bit(false);
-    } else {
-      pmap.set_next_bit(true);
-      strm_.encode_null();
-    }
+    pmap.set_next_bit(true);
+    strm_.encode_null();
   } else {
     pmap.set_next_bit(true);
 
-- 
2.43.0


From 64a047101cbc1470d877493268dc1e4a4bf95f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:13 +0000
Subject: [PATCH 07/62] fix: delta of 32-bit integers was computed modulo 2^32

---
 src/mfast/coder/encoder/encoder_field_operator.cpp | 4 +++-
 src/mfast/coder/encoder_v2/fast_encoder_core.h     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index a272869..ad19236 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -449,7 +449,9 @@ class delta_operator : public encoder_field_operator,
       value_storage bv = delta_base_value_of(cref);
       T base(&bv, nullptr);
 
-      int64_t delta = static_cast<int64_t>(cref.value() - base.value());
+      int64_t delta =
+          static_cast<int64_t>(static_cast<uint64_t>(cref.value()) -
+                               static_cast<uint64_t>(base.value()));
 
       stream.encode(delta, false, cref.instruction()->is_nullable());
       stream.save_previous_value(cref);
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index be2d9e5..8e9e189 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -517,7 +517,9 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
     value_storage bv = delta_base_value_of(cref);
     typename T::cref_type base(&bv, nullptr);
 
-    int64_t delta = static_cast<int64_t>(cref.value() - base.value());
+    int64_t delta =
+        static_cast<int64_t>(static_cast<uint64_t>(cref.value()) -
+                             static_cast<uint64_t>(base.value()));
 
     strm_.encode(delta, false, ext_ref.nullable());
     strm_.save_previous_value(cref);
-- 
2.43.0


From af042f94d45bb79242d04585b09f897c9f0f4304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:41 +0000
Subject: [PATCH 08/62] fix: v2 encoder desynchronised the stream on absent
 decimals with a default exponent

---
 src/mfast/coder/encoder_v2/fast_encoder_core.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 8e9e189..b429316 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -485,7 +485,10 @@ void fast_encoder_core::encode_field(const T &ext_ref, default_operator_tag,
     return;
   }
 
-  if (ext_ref.optional() && !ext_ref.present()) {
+  // the mantissa follows if the exponent is left out of the stream, hence an
+  // absent exponent has to be encoded as NULL
+  if (ext_ref.optional() && !ext_ref.present() &&
+      !std::is_same<typename T::cref_type, exponent_cref>::value) {
     pmap.set_next_bit(false);
     return;
   }
-- 
2.43.0


From 2e000480a5e082f6adce8a6e137e0fe1087cb7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:14 +0000
Subject: [PATCH 09/62] fix: templates lost the initial values of decimals

The XML parser stored a decimal's initial value without marking it present
(and as an integer without exponent), and gave every mantissa without an
initial value the initial value 0.
---
 src/mfast/xml_parser/field_builder.cpp |  2 +-
 src/mfast/xml_parser/field_op.cpp      | 23 ++++++++++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 367d7ba..4a5f89b 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -192,7 +192,7 @@ void field_builder::visit(const decimal_field_instruction *inst, void *) {
 
     if (base_mantissa_instruction == nullptr) {
       static const mantissa_field_instruction mantissa_prototype(
-          operator_none, nullptr, int_value_storage<int64_t>(0));
+          operator_none, nullptr, int_value_storage<int64_t>());
       base_mantissa_instruction = &mantissa_prototype;
     }
 
diff --git a/src/mfast/xml_parser/field_op.cpp b/src/mfast/xml_parser/field_op.cpp
index 87335f1..352039a 100644
--- a/src/mfast/xml_parser/field_op.cpp
+++ b/src/mfast/xml_parser/field_op.cpp
@@ -4,7 +4,9 @@
 // This file is part of mFAST.
 // See the file license.txt for licensing information.
 #include <cstddef>
+#include <cstdio>
 #include <set>
+#include <sstream>
 #include <boost/assign.hpp>
 #include "field_op.h"
 #include "../exceptions.h"
@@ -69,9 +71,24 @@ field_op::field_op(const decimal_field_instruction *inst,
           get_optional_attr(*field_op_element, "value", nullptr);
 
       if (init_value_str) {
-        if (strcmp(element->Name(), "exponent") != 0)
-          initial_value_.set(boost::lexical_cast<int64_t>(init_value_str));
-        else {
+        if (strcmp(element->Name(), "exponent") != 0) {
+          decimal_value_storage value;
+          std::istringstream strm(init_value_str);
+          if (!(strm >> value) || strm.peek() != EOF) {
+            BOOST_THROW_EXCEPTION(
+                fast_static_error("S3")
+                << reason_info(std::string("Invalid decimal initial value: ") +
+                               init_value_str));
+          }
+          // FAST 1.1 section 6.2.2: initial values of decimals are normalized
+          while (value.mantissa() != 0 && value.mantissa() % 10 == 0) {
+            value.mantissa(value.mantissa() / 10);
+            value.exponent(value.exponent() + 1);
+          }
+          if (value.mantissa() == 0)
+            value.exponent(0);
+          initial_value_ = value.storage_;
+        } else {
           short exp = 128;
           try {
             exp = boost::lexical_cast<short>(init_value_str);
-- 
2.43.0


From 5652bb3fa4143330d5084a8d4497ff2bc0c5af60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:45 +0000
Subject: [PATCH 10/62] fix: mandatory decimal without initial value was taken
 as having the initial value 0

---
 src/mfast/decimal_ref.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mfast/decimal_ref.h b/src/mfast/decimal_ref.h
index 1397d4b..87f069c 100644
--- a/src/mfast/decimal_ref.h
+++ b/src/mfast/decimal_ref.h
@@ -178,8 +178,10 @@ inline bool operator!=(const decimal_cref &lhs, const decimal_cref &rhs) {
   return !(lhs == rhs);
 }
 inline bool decimal_cref::is_initial_value() const {
-  return *this == decimal_cref(&this->instruction()->initial_value(),
-                               this->instruction());
+  const value_storage &initial = this->instruction()->initial_value();
+  return this->absent() == initial.is_empty() &&
+         (this->absent() || (mantissa() == initial.of_decimal.mantissa_ &&
+                             exponent() == initial.of_decimal.exponent_));
 }
 
 class exponent_mref : public exponent_cref {
-- 
2.43.0


From ed034e8158ed785f7e6b2368893daa7ef4932233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:45 +0000
Subject: [PATCH 11/62] fix: restoring a mantissa from the dictionary or its
 initial value cleared the exponent

---
 src/mfast/int_ref.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mfast/int_ref.h b/src/mfast/int_ref.h
index b3ed8e5..6563cdb 100644
--- a/src/mfast/int_ref.h
+++ b/src/mfast/int_ref.h
@@ -98,7 +98,7 @@ public:
   }
 
   void to_initial_value() const {
-    *this->storage() = this->instruction()->initial_value();
+    copy_from(this->instruction()->initial_value());
   }
   T value() const { return this->storage()->template get<T>(); }
 
@@ -117,7 +117,12 @@ protected:
 
   friend class mfast::detail::codec_helper;
 
-  void copy_from(value_storage v) const { *this->storage() = v; }
+  void copy_from(value_storage v) const {
+    // the storage may be that of a decimal whose mantissa this is; leave the
+    // exponent alone
+    this->storage()->present(!v.is_empty());
+    this->storage()->of_uint64.content_ = v.of_uint64.content_;
+  }
 };
 
 typedef int_mref<int32_t> int32_mref;
-- 
2.43.0


From a916836a47d21c6e9ab40bdd592b30f9bfa7caea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:13 +0000
Subject: [PATCH 12/62] fix: string delta removing characters from the front of
 the previous value was misapplied

The decoders' previous value may live in the buffer of the field being
decoded; the kept part was then not moved behind the new front part, or read
from memory already released.
---
 src/mfast/coder/common/codec_helper.h | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/mfast/coder/common/codec_helper.h b/src/mfast/coder/common/codec_helper.h
index baca4c2..f2496b2 100644
--- a/src/mfast/coder/common/codec_helper.h
+++ b/src/mfast/coder/common/codec_helper.h
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #pragma once
 
+#include <algorithm>
 #include "../../string_ref.h"
 #include "../../exceptions.h"
 
@@ -96,6 +97,13 @@ public:
     std::size_t delta_start_index;
     std::size_t base_start_index;
 
+    // the previous value may live in the very buffer of this field; keep all
+    // of it readable until it has been moved to its place
+    const bool same_buffer =
+        base_str == mref.data() && base_len > 0 && mref.capacity() > 0;
+    const std::size_t old_base_len = base_len;
+    std::size_t base_offset = 0;
+
     if (substraction_length >= 0) {
       // The subtraction length of the delta specifies the number of characters
       // to remove from the front or back of the base value.
@@ -117,16 +125,22 @@ public:
       // it is incremented by one to get the number of characters to subtract.
       // This makes it possible
       // to encode negative zero as -1,
-      base_start_index = ~substraction_length;
-      base_len -= base_start_index;
-      base_str += base_start_index;
+      base_offset = ~substraction_length;
+      if (base_len < base_offset)
+        BOOST_THROW_EXCEPTION(fast_dynamic_error("D7"));
+      base_len -= base_offset;
       delta_start_index = 0;
       base_start_index = delta_len;
     }
 
+    if (same_buffer) {
+      mref.reserve((std::max)(old_base_len, base_len + delta_len));
+      base_str = mref.data();
+    }
     mref.resize(base_len + delta_len);
-    if (base_str != mref.data() && (base_len > 0)) {
-      std::memmove(mref.data() + base_start_index, base_str, base_len);
+    if (base_len > 0) {
+      std::memmove(mref.data() + base_start_index, base_str + base_offset,
+                   base_len);
     }
     if (delta_len > 0) {
       assert(delta_str != nullptr);
-- 
2.43.0


From a8929779b7299f5bf79acf50b5febabadefacfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:13 +0000
Subject: [PATCH 13/62] fix: v2 decoder took the operator for the presence of
 an initial value

D5/D6 errors were missed for mandatory copy and increment fields without
initial value, and raised for mandatory tail fields having one.
---
 src/mfast/ext_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/ext_ref.h b/src/mfast/ext_ref.h
index c4ef130..26f3e3e 100644
--- a/src/mfast/ext_ref.h
+++ b/src/mfast/ext_ref.h
@@ -58,7 +58,7 @@ struct ext_ref_properties : presence_checker<Properties> {
                                  (OperatorType::value != operator_constant &&
                                   IsOptional)> is_nullable_type;
   typedef std::integral_constant<
-      bool, ((OperatorType::value & field_has_initial_value) > 0 &&
+      bool, ((Properties::value & field_has_initial_value) == 0 &&
              !IsOptional)> mandatory_without_initial_value_type;
   typedef std::integral_constant<bool,
                                  (OperatorType::value > operator_delta ||
-- 
2.43.0


From ef4464e76e42457ea6e7c58f0362483d86bdd1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:09 +0000
Subject: [PATCH 14/62] fix: absent strings and byte vectors with left-over
 content were encoded as empty values

---
 src/mfast/coder/encoder/fast_ostream_inserter.h    | 6 +++---
 src/mfast/coder/encoder_v2/fast_ostream_inserter.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_ostream_inserter.h b/src/mfast/coder/encoder/fast_ostream_inserter.h
index 77d2ce8..62cc983 100644
--- a/src/mfast/coder/encoder/fast_ostream_inserter.h
+++ b/src/mfast/coder/encoder/fast_ostream_inserter.h
@@ -24,21 +24,21 @@ inline fast_ostream &operator<<(fast_ostream &strm, const exponent_cref &cref) {
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const ascii_string_cref &cref) {
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
+  strm.encode(cref.absent() ? nullptr : cref.c_str(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), cref.instruction()->is_nullable());
   return strm;
 }
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const unicode_string_cref &cref) {
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
+  strm.encode(cref.absent() ? nullptr : cref.c_str(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), cref.instruction()->is_nullable());
   return strm;
 }
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const byte_vector_cref &cref) {
-  strm.encode(cref.begin(), static_cast<uint32_t>(cref.size()),
+  strm.encode(cref.absent() ? nullptr : cref.begin(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), cref.instruction()->is_nullable());
   return strm;
 }
diff --git a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
index e99548a..ecd6e81 100644
--- a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
+++ b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
@@ -19,7 +19,7 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<ascii_string_cref, Operator, Properties> &ext_ref) {
   ascii_string_cref cref = ext_ref.get();
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
+  strm.encode(cref.absent() && ext_ref.nullable() ? nullptr : cref.c_str(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), ext_ref.nullable());
   return strm;
 }
@@ -29,7 +29,7 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<unicode_string_cref, Operator, Properties> &ext_ref) {
   unicode_string_cref cref = ext_ref.get();
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
+  strm.encode(cref.absent() && ext_ref.nullable() ? nullptr : cref.c_str(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), ext_ref.nullable());
   return strm;
 }
@@ -39,7 +39,7 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<byte_vector_cref, Operator, Properties> &ext_ref) {
   byte_vector_cref cref = ext_ref.get();
-  strm.encode(cref.begin(), static_cast<uint32_t>(cref.size()),
+  strm.encode(cref.absent() && ext_ref.nullable() ? nullptr : cref.begin(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), ext_ref.nullable());
   return strm;
 }
-- 
2.43.0


From f0217f1c1a7eda089a7c6d41f38637fe7011408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:06 +0000
Subject: [PATCH 15/62] fix: decoders read past the end of truncated messages

Presence maps, ASCII strings, unicode strings and byte vectors were read
without regard to the end of the buffer.
---
 src/mfast/coder/decoder/decoder_presence_map.h |  7 ++++++-
 src/mfast/coder/decoder/fast_istream.h         |  2 ++
 src/mfast/coder/decoder/fast_istreambuf.h      | 10 +++++++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/mfast/coder/decoder/decoder_presence_map.h b/src/mfast/coder/decoder/decoder_presence_map.h
index 48b04d4..68e6f89 100644
--- a/src/mfast/coder/decoder/decoder_presence_map.h
+++ b/src/mfast/coder/decoder/decoder_presence_map.h
@@ -15,7 +15,8 @@
 namespace mfast {
 class decoder_presence_map {
 public:
-  decoder_presence_map() : cur_bitmap_(0), mask_(0), continue_(nullptr) {}
+  decoder_presence_map()
+      : cur_bitmap_(0), mask_(0), continue_(nullptr), end_(nullptr) {}
   bool is_next_bit_set() {
     mask_ >>= 1;
     if (__builtin_expect(mask_ == 0 && continue_, 0)) {
@@ -28,6 +29,7 @@ public:
 
   bool load(fast_istreambuf &buf) {
     const char *addr = buf.gptr();
+    end_ = buf.egptr();
     bool result = load(addr);
     buf.gbump(addr - buf.gptr());
     return result;
@@ -41,6 +43,8 @@ private:
     const int max_load_byes = sizeof(size_t) * 8 / 7;
     mask_ = 1;
     for (int i = 0; i < max_load_byes; ++i, ++addr) {
+      if (addr == end_)
+        BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
       char c = *addr;
       cur_bitmap_ <<= 7;
       cur_bitmap_ |= c & '\x7F';
@@ -58,6 +62,7 @@ private:
   size_t cur_bitmap_;
   size_t mask_;
   const char *continue_;
+  const char *end_;
   friend std::ostream &operator<<(std::ostream &,
                                   const mfast::decoder_presence_map &);
 };
diff --git a/src/mfast/coder/decoder/fast_istream.h b/src/mfast/coder/decoder/fast_istream.h
index 7a4b844..e6d5bf3 100644
--- a/src/mfast/coder/decoder/fast_istream.h
+++ b/src/mfast/coder/decoder/fast_istream.h
@@ -99,6 +99,7 @@ public:
               const unicode_field_instruction * /* instruction */,
               Nullable nullable) {
     if (this->decode(len, nullable)) {
+      buf_->check_avail(len);
       bv = buf_->gptr();
       buf_->gbump(len);
       return true;
@@ -119,6 +120,7 @@ public:
               const byte_vector_field_instruction * /* instruction */,
               Nullable nullable) {
     if (this->decode(len, nullable)) {
+      buf_->check_avail(len);
       bv = reinterpret_cast<const unsigned char *>(buf_->gptr());
       buf_->gbump(len);
       return true;
diff --git a/src/mfast/coder/decoder/fast_istreambuf.h b/src/mfast/coder/decoder/fast_istreambuf.h
index 39c6425..c6c3a67 100644
--- a/src/mfast/coder/decoder/fast_istreambuf.h
+++ b/src/mfast/coder/decoder/fast_istreambuf.h
@@ -45,7 +45,15 @@ protected:
     return *(gptr_++);
   }
 
-  char sgetc() const { return *gptr_; }
+  char sgetc() const {
+    check_avail(1);
+    return *gptr_;
+  }
+  // make sure there are at least n more bytes to read
+  void check_avail(std::size_t n) const {
+    if (in_avail() < n)
+      BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
+  }
   const char *egptr() { return egptr_; }
   const char *gptr_, *egptr_;
 };
-- 
2.43.0


From 52e8f6a24f3100d4d4b8f2c488296f26d70ff99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:48 +0000
Subject: [PATCH 16/62] fix: decoders allocated whatever length a message
 claimed

The lengths of sequences and integer vectors are now checked against the
number of bytes left in the message before any element is allocated.
---
 src/mfast/coder/common/codec_helper.h         | 20 +++++++++++++++++++
 src/mfast/coder/decoder/fast_decoder.cpp      |  5 +++++
 src/mfast/coder/decoder/fast_istream.h        |  3 +++
 .../coder/decoder_v2/fast_decoder_core.h      |  6 +++++-
 4 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/mfast/coder/common/codec_helper.h b/src/mfast/coder/common/codec_helper.h
index f2496b2..a93b4b7 100644
--- a/src/mfast/coder/common/codec_helper.h
+++ b/src/mfast/coder/common/codec_helper.h
@@ -8,11 +8,31 @@
 #include <algorithm>
 #include "../../string_ref.h"
 #include "../../exceptions.h"
+#include "../../instructions/sequence_instruction.h"
 
 namespace mfast {
 namespace detail {
 class codec_helper {
 public:
+  /// Returns a lower bound of the encoded size of a sequence element
+  static std::size_t
+  min_element_size(const sequence_field_instruction *instruction) {
+    const group_field_instruction *element =
+        instruction->element_instruction() ? instruction->element_instruction()
+                                           : instruction;
+    bool has_pmap = false;
+    std::size_t result = 0;
+    for (auto field : element->subinstructions()) {
+      if (field->pmap_size() > 0)
+        has_pmap = true;
+      else if (field->field_type() != field_type_group &&
+               field->field_type() != field_type_sequence &&
+               field->field_operator() != operator_constant)
+        ++result;
+    }
+    return result + has_pmap;
+  }
+
   template <typename T> value_storage &previous_value_of(const T &mref) const {
     return const_cast<typename T::instruction_type *>(mref.instruction())
         ->prev_value();
diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index 68c2c95..5f7c293 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -11,6 +11,7 @@
 #include "../common/exceptions.h"
 #include "../common/debug_stream.h"
 #include "../common/template_repo.h"
+#include "../common/codec_helper.h"
 #include "decoder_presence_map.h"
 #include "decoder_field_operator.h"
 #include "fast_istream.h"
@@ -128,6 +129,8 @@ void fast_decoder_impl::visit(const int_vector_mref<IntType> &mref) {
     return;
   }
 
+  // every element occupies at least one byte
+  strm_.check_avail(length);
   mref.resize(length);
   for (uint32_t i = 0; i < length; ++i) {
     strm_.decode(mref[i], false);
@@ -180,6 +183,8 @@ inline void fast_decoder_impl::visit(const sequence_mref &mref, int) {
 
   if (length_mref.present()) {
     debug_ << "  decoded sequence length " << length_mref.value() << "\n";
+    strm_.check_avail(length_mref.value() *
+                      detail::codec_helper::min_element_size(mref.instruction()));
     mref.resize(length_mref.value());
   } else {
     debug_ << "  " << mref.name() << "is absent\n";
diff --git a/src/mfast/coder/decoder/fast_istream.h b/src/mfast/coder/decoder/fast_istream.h
index e6d5bf3..966bc3a 100644
--- a/src/mfast/coder/decoder/fast_istream.h
+++ b/src/mfast/coder/decoder/fast_istream.h
@@ -128,6 +128,9 @@ public:
     return false;
   }
 
+  /// Throws unless there are at least @a n more bytes in the stream
+  void check_avail(std::size_t n) const { buf_->check_avail(n); }
+
   std::ostream &warning_log() { return *warning_log_; }
   void warning_log(std::ostream *log) { warning_log_ = log; }
 
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index e2ec220..c162ee4 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -220,6 +220,8 @@ inline void fast_decoder_base::decode_field(const T &ext_ref,
     return;
   }
 
+  // every element occupies at least one byte
+  this->strm_.check_avail(length);
   mref.resize(length);
   for (uint32_t i = 0; i < length; ++i) {
     this->strm_.decode(mref[i], false_type());
@@ -252,7 +254,9 @@ inline void fast_decoder_base::decode_field(const T &ext_ref,
 
   if (length.present()) {
     std::size_t len = length.get().value();
-    ext_ref.set().resize(len);
+    auto mref = ext_ref.set();
+    this->strm_.check_avail(len * min_element_size(mref.instruction()));
+    mref.resize(len);
 
     for (std::size_t i = 0; i < len; ++i) {
       this->visit(ext_ref[i]);
-- 
2.43.0


From 894084b1b7a5fb227e5e012b859fdf7b8912a032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:12 +0000
Subject: [PATCH 17/62] fix: nested templates with unknown or omitted template
 identifiers crashed the decoders

The v2 decoder dereferenced a null pointer while reporting an unknown
template, the v1 decoder used a nested message of no template at all when
the identifier was omitted, and both kept the nested template active after
an error.
---
 src/mfast/coder/decoder/fast_decoder.cpp       | 18 +++++++++++++-----
 src/mfast/coder/decoder_v2/fast_decoder_core.h | 17 ++++++++++++-----
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index 5f7c293..4478488 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -218,7 +218,15 @@ inline void fast_decoder_impl::visit(const sequence_element_mref &mref,
 
 inline void fast_decoder_impl::visit(const nested_message_mref &mref, int) {
   pmap_state state;
-  message_type *saved_active_message = active_message_;
+
+  // restore the active template on every way out of here
+  struct active_message_saver {
+    message_type *&active_;
+    message_type *saved_;
+    explicit active_message_saver(message_type *&active)
+        : active_(active), saved_(active) {}
+    ~active_message_saver() { active_ = saved_; }
+  } message_saver(active_message_);
 
   debug_ << "decoding dynamic templateRef ...\n";
 
@@ -235,22 +243,22 @@ inline void fast_decoder_impl::visit(const nested_message_mref &mref, int) {
     debug_ << "   decoded template id -> " << template_id << "\n";
 
     // find the message with corresponding template id
-    active_message_ = repo_.find(template_id);
-    if (active_message_ == nullptr) {
+    message_type *message = repo_.find(template_id);
+    if (message == nullptr) {
       using namespace coder;
 
       BOOST_THROW_EXCEPTION(fast_dynamic_error("D9")
                             << template_id_info(template_id));
     }
-    mref.set_target_instruction(active_message_->instruction(), false);
+    active_message_ = message;
   }
+  mref.set_target_instruction(active_message_->instruction(), false);
 
   for (auto &&field : mref.target()) {
     apply_mutator(*this, field);
   }
 
   restore_pmap(state);
-  active_message_ = saved_active_message;
 }
 
 message_type *fast_decoder_impl::decode_segment(fast_istreambuf &sb) {
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index c162ee4..16f3eaa 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -617,29 +617,36 @@ inline fast_decoder_core<NumTokens>::fast_decoder_core(allocator *alloc)
 template <unsigned NumTokens>
 void fast_decoder_core<NumTokens>::visit(const nested_message_mref &mref) {
   decoder_pmap_saver<true_type> saver(this);
-  info_entry *saved_active_info = this->active_message_info_;
+
+  // restore the active template on every way out of here
+  struct active_info_saver {
+    info_entry *&active_;
+    info_entry *saved_;
+    explicit active_info_saver(info_entry *&active)
+        : active_(active), saved_(active) {}
+    ~active_info_saver() { active_ = saved_; }
+  } info_saver(this->active_message_info_);
 
   if (this->current_->is_next_bit_set()) {
     uint32_t template_id;
 
     strm_.decode(template_id, false_type());
     // find the message with corresponding template id
-    active_message_info_ = repo_.find(template_id);
+    info_entry *info = repo_.find(template_id);
 
-    if (active_message_info_ == nullptr) {
+    if (info == nullptr) {
       BOOST_THROW_EXCEPTION(
           fast_dynamic_error("D9")
           << template_id_info(template_id)
           << referenced_by_info(this->active_message().name()));
     }
+    active_message_info_ = info;
   }
 
   mref.set_target_instruction(this->active_message().instruction(),
                               false_type());
   message_decode_function_t decode = active_message_info_->decode_fun_;
   (this->*decode)(mref.target());
-
-  this->active_message_info_ = saved_active_info;
 }
 
 template <unsigned NumTokens>
-- 
2.43.0


From 54beb84bfc3aa7b8d7d83b44588666d18359e840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:48 +0000
Subject: [PATCH 18/62] fix: generated code for dynamic template references did
 not compile

---
 src/fast_type_gen/inl_gen.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fast_type_gen/inl_gen.cpp b/src/fast_type_gen/inl_gen.cpp
index 6278598..9f11812 100644
--- a/src/fast_type_gen/inl_gen.cpp
+++ b/src/fast_type_gen/inl_gen.cpp
@@ -972,8 +972,10 @@ void inl_gen::visit(const mfast::templateref_instruction *, void *pIndex) {
        << "get_nested_message" << index << "() const\n"
        << "{\n"
        << "  return mfast::nested_message_cref((*this)[" << index << "]);\n"
-       << "}\n\n" << cref_scope_.str() << "try_get_nested_message" << index
-       << "() const\n"
+       << "}\n\n"
+       << "inline\n"
+       << "mfast::nested_message_cref\n" << cref_scope_.str()
+       << "try_get_nested_message" << index << "() const\n"
        << "{\n"
        << "  return mfast::nested_message_cref((*this)[" << index << "]);\n"
        << "}\n\n"
-- 
2.43.0


From a8acda50d9035dfcafdb400a78b4102e32ba3849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:48 +0000
Subject: [PATCH 19/62] fix: v2 decoder could not be instantiated for integer
 vectors

---
 src/mfast/vector_ref.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index a2607ba..f654036 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -365,6 +365,8 @@ template <typename T> class int_vector_mref : public vector_mref<T> {
 
 public:
   typedef typename base_type::instruction_cptr instruction_cptr;
+  typedef int_vector_cref<T> cref_type;
+
   int_vector_mref() {}
   int_vector_mref(mfast::allocator *alloc, value_storage *storage,
                   instruction_cptr instruction)
-- 
2.43.0


From 52d263b5576e3060a84f24f184a7d9613310cfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:48 +0000
Subject: [PATCH 20/62] fix: absent optional sequences desynchronised the
 stream unless their length had no operator

---
 src/mfast/coder/encoder/fast_encoder.cpp       | 10 ----------
 src/mfast/coder/encoder_v2/fast_encoder_core.h | 14 ++++----------
 src/mfast/ext_ref.h                            |  5 ++++-
 3 files changed, 8 insertions(+), 21 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 17a396f..3de07e7 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -126,16 +126,6 @@ inline void fast_encoder_impl::visit(group_cref cref, int) {
 
 inline void fast_encoder_impl::visit(sequence_cref cref, int) {
 
-  if (cref.instruction()->optional() && !cref.present()) {
-    if (cref.instruction()->length_instruction()->pmap_size() > 0)
-      this->current_->set_next_bit(false);
-    if (cref.instruction()->length_instruction()->field_operator() != operator_constant &&
-        cref.instruction()->length_instruction()->field_operator() != operator_default &&
-        cref.instruction()->length_instruction()->field_operator() != operator_copy)
-      strm_.encode_null();
-    return;
-  }
-
   value_storage storage;
 
   uint32_mref length_mref(nullptr, &storage,
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index b429316..60373c6 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -263,20 +263,14 @@ template <typename T>
 inline void fast_encoder_core::encode_field(const T &ext_ref,
                                             sequence_type_tag) {
 
-  if (ext_ref.get().instruction()->optional() && !ext_ref.present()) {
-    if (T::length_type::has_pmap_type::value)
-      this->current_->set_next_bit(false);
-    if(!std::is_same<typename T::length_type::operator_category, constant_operator_tag>::value &&
-       !std::is_same<typename T::length_type::operator_category, copy_operator_tag>::value &&
-       !std::is_same<typename T::length_type::operator_category, default_operator_tag>::value)
-      strm_.encode_null();
-    return;
-  }
-
   value_storage storage;
 
   typename T::length_type length = ext_ref.get_length(storage);
   this->visit(length);
+
+  if (ext_ref.get().absent())
+    return;
+
   std::size_t sz = length.get().value();
   for (std::size_t i = 0; i < sz; ++i) {
     this->visit(ext_ref[i]);
diff --git a/src/mfast/ext_ref.h b/src/mfast/ext_ref.h
index 26f3e3e..6e2203d 100644
--- a/src/mfast/ext_ref.h
+++ b/src/mfast/ext_ref.h
@@ -158,7 +158,10 @@ public:
 
     uint32_mref length_mref(nullptr, &storage,
                             base_.instruction()->length_instruction());
-    length_mref.as(base_.size());
+    if (base_.absent())
+      length_mref.omit();
+    else
+      length_mref.as(base_.size());
     return length_type(length_mref);
   }
 
-- 
2.43.0


From 8070ed7440c3e63ce11e346450ec71c8bb18f865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:48 +0000
Subject: [PATCH 21/62] fix: decoding a nested message with a group wrote
 through a null pointer

---
 src/mfast/coder/decoder/fast_decoder.cpp       | 2 +-
 src/mfast/coder/decoder_v2/fast_decoder_core.h | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index 4478488..f488d01 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -252,7 +252,7 @@ inline void fast_decoder_impl::visit(const nested_message_mref &mref, int) {
     }
     active_message_ = message;
   }
-  mref.set_target_instruction(active_message_->instruction(), false);
+  mref.set_target_instruction(active_message_->instruction(), true);
 
   for (auto &&field : mref.target()) {
     apply_mutator(*this, field);
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index 16f3eaa..0e1c059 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -643,8 +643,7 @@ void fast_decoder_core<NumTokens>::visit(const nested_message_mref &mref) {
     active_message_info_ = info;
   }
 
-  mref.set_target_instruction(this->active_message().instruction(),
-                              false_type());
+  mref.set_target_instruction(this->active_message().instruction(), true);
   message_decode_function_t decode = active_message_info_->decode_fun_;
   (this->*decode)(mref.target());
 }
-- 
2.43.0


From cc6d9e249e77699dd96ef88356d9b9efef3d853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:48 +0000
Subject: [PATCH 22/62] fix: copying an unset template reference left its
 content pointer uninitialised

---
 src/mfast/instructions/templateref_instruction.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfast/instructions/templateref_instruction.cpp b/src/mfast/instructions/templateref_instruction.cpp
index ca9e19e..02f251e 100644
--- a/src/mfast/instructions/templateref_instruction.cpp
+++ b/src/mfast/instructions/templateref_instruction.cpp
@@ -63,6 +63,8 @@ void templateref_instruction::copy_construct_value(const value_storage &src,
 
     dest.of_templateref.of_instruction.instruction_->copy_group_subfields(
         src.of_templateref.content_, dest.of_templateref.content_, alloc);
+  } else {
+    dest.of_templateref.content_ = nullptr;
   }
 }
 
-- 
2.43.0


From ce422fc9933aa0e7d4c7f8691a653d487e5cdc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:48 +0000
Subject: [PATCH 23/62] fix: sequences of a sole template reference bypassed
 the codec's dictionary

---
 src/mfast/coder/common/dictionary_builder.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index 862560c..79f0097 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -151,6 +151,15 @@ void dictionary_builder::visit(const sequence_field_instruction *src_inst,
 
   this->build_group(src_inst, src_inst, dest);
 
+  if (src_inst->element_instruction()) {
+    // the elements have to use the dictionary entries of this codec instead of
+    // those in the shared template the sequence refers to
+    group_field_instruction *element_inst =
+        src_inst->element_instruction()->clone(alloc_);
+    element_inst->set_subinstructions(dest->subinstructions());
+    dest->element_instruction(element_inst);
+  }
+
   if (src_inst->length_instruction()) {
     visit(src_inst->length_instruction(), &dest->sequence_length_instruction_);
   } else {
-- 
2.43.0


From 9df2afa95ff126859085f5cbe3c32077fdba7050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:28 +0000
Subject: [PATCH 24/62] fix: length of a sequence with its own dictionary was
 looked up in the enclosing one

---
 src/mfast/coder/common/dictionary_builder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index 79f0097..f6e60fb 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -161,7 +161,12 @@ void dictionary_builder::visit(const sequence_field_instruction *src_inst,
   }
 
   if (src_inst->length_instruction()) {
+    // the length belongs to the sequence, so does its dictionary
+    const char *inherited_dictionary = current_dictionary_;
+    if (!is_empty_string(src_inst->dictionary()))
+      this->current_dictionary_ = src_inst->dictionary();
     visit(src_inst->length_instruction(), &dest->sequence_length_instruction_);
+    this->current_dictionary_ = inherited_dictionary;
   } else {
     dest->sequence_length_instruction_ = new (alloc_)
         uint32_field_instruction(operator_none, presence_mandatory, 0, "", "",
-- 
2.43.0


From 1df6d53c1d7afc33202ef99ac30df9a8fe93e469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:20 +0000
Subject: [PATCH 25/62] fix: length claims of sequences with groups in their
 elements were not bounded

---
 src/mfast/coder/common/codec_helper.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/mfast/coder/common/codec_helper.h b/src/mfast/coder/common/codec_helper.h
index a93b4b7..fe27b24 100644
--- a/src/mfast/coder/common/codec_helper.h
+++ b/src/mfast/coder/common/codec_helper.h
@@ -17,17 +17,25 @@ public:
   /// Returns a lower bound of the encoded size of a sequence element
   static std::size_t
   min_element_size(const sequence_field_instruction *instruction) {
-    const group_field_instruction *element =
-        instruction->element_instruction() ? instruction->element_instruction()
-                                           : instruction;
+    return min_group_size(instruction->element_instruction()
+                              ? instruction->element_instruction()
+                              : instruction);
+  }
+
+  static std::size_t min_group_size(const group_field_instruction *group) {
     bool has_pmap = false;
     std::size_t result = 0;
-    for (auto field : element->subinstructions()) {
+    for (auto field : group->subinstructions()) {
       if (field->pmap_size() > 0)
         has_pmap = true;
-      else if (field->field_type() != field_type_group &&
-               field->field_type() != field_type_sequence &&
-               field->field_operator() != operator_constant)
+      else if (field->field_type() == field_type_group)
+        result += min_group_size(
+            static_cast<const group_field_instruction *>(field));
+      else if (field->field_type() == field_type_sequence)
+        result += static_cast<const sequence_field_instruction *>(field)
+                          ->length_instruction()
+                          ->field_operator() != operator_constant;
+      else if (field->field_operator() != operator_constant)
         ++result;
     }
     return result + has_pmap;
-- 
2.43.0


From 9d5a703771006a2ef81573c37c868a182c5217a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:02 +0000
Subject: [PATCH 26/62] fix: decoders did not reset the dictionary for nested
 templates with the reset attribute

---
 src/mfast/coder/decoder/fast_decoder.cpp       | 3 +++
 src/mfast/coder/decoder_v2/fast_decoder_core.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index f488d01..a6ee1eb 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -252,6 +252,9 @@ inline void fast_decoder_impl::visit(const nested_message_mref &mref, int) {
     }
     active_message_ = message;
   }
+  if (active_message_->instruction()->has_reset_attribute())
+    repo_.reset_dictionary();
+
   mref.set_target_instruction(active_message_->instruction(), true);
 
   for (auto &&field : mref.target()) {
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index 0e1c059..dd328cc 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -643,6 +643,9 @@ void fast_decoder_core<NumTokens>::visit(const nested_message_mref &mref) {
     active_message_info_ = info;
   }
 
+  if (this->active_message().instruction()->has_reset_attribute())
+    repo_.reset_dictionary();
+
   mref.set_target_instruction(this->active_message().instruction(), true);
   message_decode_function_t decode = active_message_info_->decode_fun_;
   (this->*decode)(mref.target());
-- 
2.43.0


From 33aa332b1618ca0f940015797c3a39d86cc1554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:54 +0000
Subject: [PATCH 27/62] fix: presence bits of decimals with individual
 operators were counted once

---
 src/mfast/instructions/decimal_instruction.cpp | 6 ++++++
 src/mfast/instructions/decimal_instruction.h   | 6 ++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mfast/instructions/decimal_instruction.cpp b/src/mfast/instructions/decimal_instruction.cpp
index 3cca7a7..df53b7a 100644
--- a/src/mfast/instructions/decimal_instruction.cpp
+++ b/src/mfast/instructions/decimal_instruction.cpp
@@ -22,6 +22,12 @@ void decimal_field_instruction::copy_construct_value(const value_storage &src,
   dest.of_decimal.exponent_ = src.of_decimal.exponent_;
 }
 
+std::size_t decimal_field_instruction::pmap_size() const {
+  // exponent and mantissa with individual operators have a bit each
+  return has_pmap_bit_ +
+         (mantissa_instruction_ ? mantissa_instruction_->pmap_size() : 0);
+}
+
 decimal_field_instruction *
 decimal_field_instruction::clone(arena_allocator &alloc) const {
   return new (alloc) decimal_field_instruction(*this);
diff --git a/src/mfast/instructions/decimal_instruction.h b/src/mfast/instructions/decimal_instruction.h
index fbeeb10..00517e8 100644
--- a/src/mfast/instructions/decimal_instruction.h
+++ b/src/mfast/instructions/decimal_instruction.h
@@ -82,12 +82,10 @@ public:
     mantissa_instruction_ = v;
     this->initial_value_.of_decimal.mantissa_ =
         mantissa_instruction_->initial_value().get<int64_t>();
-
-    if (has_pmap_bit_ == 0) {
-      has_pmap_bit_ = (mantissa_instruction_->pmap_size() > 0);
-    }
   }
 
+  virtual std::size_t pmap_size() const override;
+
   static const decimal_field_instruction *default_instruction();
 
 protected:
-- 
2.43.0


From 622cbe3b64f7e1ce49c44c63e603d45105006c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:54 +0000
Subject: [PATCH 28/62] fix: reserved presence map bytes that were not used
 went out uninitialised

---
 src/mfast/coder/encoder/encoder_presence_map.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mfast/coder/encoder/encoder_presence_map.h b/src/mfast/coder/encoder/encoder_presence_map.h
index ab8be89..6b82bda 100644
--- a/src/mfast/coder/encoder/encoder_presence_map.h
+++ b/src/mfast/coder/encoder/encoder_presence_map.h
@@ -30,6 +30,7 @@ private:
   void reset();
 
   std::size_t nbytes_;
+  std::size_t unused_bits_;
   std::size_t value_, mask_;
   fast_ostream *stream_;
   std::size_t offset_;
@@ -37,7 +38,7 @@ private:
 };
 
 inline encoder_presence_map::encoder_presence_map()
-    : stream_(nullptr), offset_(0), maxbytes_(0) {
+    : unused_bits_(0), stream_(nullptr), offset_(0), maxbytes_(0) {
   reset();
 }
 
@@ -45,6 +46,7 @@ inline void encoder_presence_map::init(fast_ostream *stream,
                                        std::size_t maxbits) {
   stream_ = stream;
   offset_ = stream->offset();
+  unused_bits_ = maxbits;
   maxbytes_ = (maxbits + 6) / 7; // i.e. ceiling(maxbits/7)
   stream_->buf_->skip(maxbytes_);
 }
@@ -56,6 +58,11 @@ inline void encoder_presence_map::reset() {
 }
 
 inline void encoder_presence_map::commit() {
+  // bits that were set aside but not used, as that of an absent decimal's
+  // mantissa, still occupy their bytes
+  while (unused_bits_ > 0)
+    set_next_bit(false);
+
 #ifdef BOOST_BIG_ENDIAN
   const std::size_t stop_bit_mask = (init_mask >> (nbytes_ * 8));
 #else
@@ -73,6 +80,9 @@ inline BOOST_CONSTEXPR std::size_t get_next_bit_mask(std::size_t i) {
 inline void encoder_presence_map::set_next_bit(bool v) {
   const std::size_t next_bit_mask = get_next_bit_mask(sizeof(std::size_t));
 
+  if (unused_bits_ > 0)
+    --unused_bits_;
+
   if ((mask_ & next_bit_mask) != 0) {
 #ifdef BOOST_BIG_ENDIAN
     mask_ >>= 2;
-- 
2.43.0


From ab6be18d2fbc07a6b063790db0cfa861c5092660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:54 +0000
Subject: [PATCH 29/62] fix: removing overlong presence map bytes ran past the
 start of the map

---
 src/mfast/coder/encoder/encoder_presence_map.h | 11 +++++++----
 src/mfast/coder/encoder/fast_ostream.h         |  9 ++++++---
 src/mfast/coder/encoder/fast_ostreambuf.cpp    | 10 ++++------
 src/mfast/coder/encoder/fast_ostreambuf.h      |  5 ++++-
 4 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_presence_map.h b/src/mfast/coder/encoder/encoder_presence_map.h
index 6b82bda..c16d469 100644
--- a/src/mfast/coder/encoder/encoder_presence_map.h
+++ b/src/mfast/coder/encoder/encoder_presence_map.h
@@ -34,18 +34,20 @@ private:
   std::size_t value_, mask_;
   fast_ostream *stream_;
   std::size_t offset_;
+  std::size_t begin_;
   std::size_t maxbytes_;
 };
 
 inline encoder_presence_map::encoder_presence_map()
-    : unused_bits_(0), stream_(nullptr), offset_(0), maxbytes_(0) {
+    : unused_bits_(0), stream_(nullptr), offset_(0), begin_(0),
+      maxbytes_(0) {
   reset();
 }
 
 inline void encoder_presence_map::init(fast_ostream *stream,
                                        std::size_t maxbits) {
   stream_ = stream;
-  offset_ = stream->offset();
+  offset_ = begin_ = stream->offset();
   unused_bits_ = maxbits;
   maxbytes_ = (maxbits + 6) / 7; // i.e. ceiling(maxbits/7)
   stream_->buf_->skip(maxbytes_);
@@ -70,7 +72,7 @@ inline void encoder_presence_map::commit() {
 #endif
 
   value_ |= stop_bit_mask;
-  stream_->write_bytes_at(&value_, ++nbytes_, offset_, true);
+  stream_->write_bytes_at(&value_, ++nbytes_, offset_, begin_, true);
 }
 
 inline BOOST_CONSTEXPR std::size_t get_next_bit_mask(std::size_t i) {
@@ -96,7 +98,8 @@ inline void encoder_presence_map::set_next_bit(bool v) {
 
   if (mask_ == 0) {
     // we need to commit the current pmap before preceed
-    stream_->write_bytes_at(&value_, sizeof(std::size_t), offset_, false);
+    stream_->write_bytes_at(&value_, sizeof(std::size_t), offset_, begin_,
+                            false);
     offset_ += sizeof(std::size_t);
     maxbytes_ -= sizeof(std::size_t);
     reset();
diff --git a/src/mfast/coder/encoder/fast_ostream.h b/src/mfast/coder/encoder/fast_ostream.h
index cd9aaba..fd72126 100644
--- a/src/mfast/coder/encoder/fast_ostream.h
+++ b/src/mfast/coder/encoder/fast_ostream.h
@@ -46,7 +46,8 @@ private:
   friend class encoder_presence_map;
 
   void write_bytes_at(std::size_t *bytes, std::size_t nbytes,
-                      std::size_t offset, bool pmap_end);
+                      std::size_t offset, std::size_t pmap_begin,
+                      bool pmap_end);
 
   std::size_t offset() const { return rdbuf()->length(); }
   fast_ostreambuf *buf_;
@@ -239,9 +240,11 @@ inline void fast_ostream::save_previous_value(const T &cref) const {
 }
 
 inline void fast_ostream::write_bytes_at(std::size_t *bytes, std::size_t nbytes,
-                                         std::size_t offset, bool pmap_end) {
+                                         std::size_t offset,
+                                         std::size_t pmap_begin,
+                                         bool pmap_end) {
   rdbuf()->write_bytes_at(reinterpret_cast<const char *>(bytes), nbytes, offset,
-                          pmap_end && !allow_overlong_pmap_);
+                          pmap_begin, pmap_end && !allow_overlong_pmap_);
 }
 
 inline void fast_ostream::encode_null() { rdbuf()->sputc('\x80'); }
diff --git a/src/mfast/coder/encoder/fast_ostreambuf.cpp b/src/mfast/coder/encoder/fast_ostreambuf.cpp
index 5492f7f..3a4712e 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.cpp
+++ b/src/mfast/coder/encoder/fast_ostreambuf.cpp
@@ -15,20 +15,18 @@ void fast_ostreambuf::overflow(std::size_t) { throw buffer_overflow_error(); }
 std::size_t fast_ostreambuf::length() const { return pptr_ - pbase_; }
 
 void fast_ostreambuf::write_bytes_at(const char *data, std::size_t n,
-                                     std::size_t offset, bool shrink) {
+                                     std::size_t offset,
+                                     std::size_t pmap_begin, bool shrink) {
   assert((pbase_ + offset + n) <= pptr_);
   std::copy(data, data + n, pbase_ + offset);
 
   if (shrink) {
     std::size_t index = offset + n - 1;
-    if (pbase_[index] == '\x80') {
+    if (index > pmap_begin && pbase_[index] == '\x80') {
       --index;
-      for (; index > 0 && pbase_[index] == 0; --index)
+      for (; index > pmap_begin && pbase_[index] == 0; --index)
         ;
 
-      if (pbase_[index] & '\x80') {
-        ++index;
-      }
       pbase_[index] |= '\x80';
       ++index;
       const char *src = pbase_ + offset + n;
diff --git a/src/mfast/coder/encoder/fast_ostreambuf.h b/src/mfast/coder/encoder/fast_ostreambuf.h
index 7d7b98f..aca01b3 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.h
+++ b/src/mfast/coder/encoder/fast_ostreambuf.h
@@ -27,8 +27,11 @@ public:
   void skip(std::size_t n);
 
   virtual std::size_t length() const;
+  /// Overwrites @a n bytes at @a offset. If @a shrink is set, they end a
+  /// presence map starting at @a pmap_begin, whose trailing zeros are removed.
   virtual void write_bytes_at(const char *data, std::size_t n,
-                              std::size_t offset, bool shrink);
+                              std::size_t offset, std::size_t pmap_begin,
+                              bool shrink);
 
   const char *pbase() const { return pbase_; }
 
-- 
2.43.0


From c9b17c8faec96a2d8ae3f2bcd86d2bd604e24f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:27 +0000
Subject: [PATCH 30/62] fix: growing vectors told the allocator the old size in
 elements rather than bytes

---
 src/mfast/vector_ref.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index f654036..ffe0c73 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -437,7 +437,8 @@ void vector_mref_base<T>::reserve(
 
   if (capacity() > 0) {
     this->storage()->of_array.capacity_in_bytes_ = this->alloc_->reallocate(
-        this->storage()->of_array.content_, capacity(), reserve_size);
+        this->storage()->of_array.content_,
+        this->storage()->of_array.capacity_in_bytes_, reserve_size);
   } else {
     void *old_addr = this->storage()->of_array.content_;
     this->storage()->of_array.content_ = nullptr;
-- 
2.43.0


From 53d8a5a9aa76f03641d9f57a21e83c69fcb393fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:27 +0000
Subject: [PATCH 31/62] fix: inserting into vectors moved the elements to the
 wrong place and past the end

---
 src/mfast/vector_ref.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index ffe0c73..db80df2 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -467,18 +467,17 @@ vector_mref_base<T>::shift(typename vector_mref_base<T>::iterator position,
                            typename vector_mref_base<T>::size_t n) const {
   assert(position >= begin() && position <= end());
   std::size_t offset = position - begin();
+  std::size_t old_size = this->size();
 
-  if (capacity() < this->size() + n)
-    reserve(this->size() + n);
+  reserve(old_size + n);
 
   iterator src = begin() + offset;
 
-  if (offset < this->size()) {
-    std::memmove(src + (n * sizeof(value_type)), src,
-                 (this->size() + 1 - offset) * sizeof(value_type));
+  if (offset < old_size) {
+    std::memmove(src + n, src, (old_size - offset) * sizeof(value_type));
   }
 
-  this->storage()->of_array.len_ += static_cast<uint32_t>(n);
+  this->storage()->array_length(static_cast<uint32_t>(old_size + n));
   return src;
 }
 
-- 
2.43.0


From f2add5921ef5351533511330d380b630d87c3f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:27 +0000
Subject: [PATCH 32/62] fix: resizing vectors left old or uninitialised
 elements behind

---
 src/mfast/coder/common/codec_helper.h |  3 +++
 src/mfast/vector_ref.h                | 12 ++++--------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/mfast/coder/common/codec_helper.h b/src/mfast/coder/common/codec_helper.h
index fe27b24..849b643 100644
--- a/src/mfast/coder/common/codec_helper.h
+++ b/src/mfast/coder/common/codec_helper.h
@@ -163,6 +163,9 @@ public:
 
     if (same_buffer) {
       mref.reserve((std::max)(old_base_len, base_len + delta_len));
+      // (the field may be absent here, resizing it must not clear them)
+      field_mref_core_access::storage_of(mref)->array_length(
+          static_cast<uint32_t>(old_base_len));
       base_str = mref.data();
     }
     mref.resize(base_len + delta_len);
diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index db80df2..b28b5ca 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -215,15 +215,11 @@ public:
     return data()[index];
   }
 
-  void resize(size_t n, char c = 0) const {
+  void resize(size_t n, value_type c = 0) const {
     assert(n < static_cast<size_t>((std::numeric_limits<int32_t>::max)()));
-    size_t len = n + 1;
-    if (len > this->capacity()) {
-      reserve(n);
-      std::make_signed<std::size_t>::type bytes_to_set = n - this->size();
-      if (bytes_to_set > 0)
-        std::memset(end(), c, static_cast<size_t>(bytes_to_set));
-    }
+    this->reserve(n);
+    if (n > this->size())
+      std::fill(end(), begin() + n, c);
     this->storage()->array_length(static_cast<uint32_t>(n));
   }
 
-- 
2.43.0


From fcebd2fc783ff17e8a6e64594386671fec058314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:27 +0000
Subject: [PATCH 33/62] fix: replacing part of a vector by less lost elements
 or wrote to borrowed content

---
 src/mfast/vector_ref.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index b28b5ca..35a2736 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -489,8 +489,10 @@ void vector_mref_base<T>::replace(size_t pos, size_t count,
       // some elements has to be shift back
       this->shift(data() + pos, diff);
     } else {
+      // make sure the vector owns its content before changing it
+      this->reserve(this->size());
       std::memmove(data() + pos + count2, data() + pos + count,
-                   -diff * sizeof(value_type));
+                   (this->size() - pos - count) * sizeof(value_type));
       this->resize(this->size() + diff);
     }
   }
-- 
2.43.0


From a8f5506237a27588ffb2f16930b16e187915c296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:27 +0000
Subject: [PATCH 34/62] fix: push_back() of integer vectors truncated the value
 to 8 bits

---
 src/mfast/vector_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 35a2736..4221aee 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -225,7 +225,7 @@ public:
 
   void reserve(size_t n) const;
 
-  void push_back(char c) const { insert(end(), c); }
+  void push_back(value_type c) const { insert(end(), c); }
   void pop_back() const {
     if (this->size())
       this->storage()->of_array.len_ -= 1;
-- 
2.43.0


From a83fb77d2459acd37cd949ee9190cad32c0b362a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:27 +0000
Subject: [PATCH 35/62] fix: swap() of integer vectors could not be
 instantiated

---
 src/mfast/vector_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 4221aee..e858a8a 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -374,7 +374,7 @@ public:
     return int_vector_cref<T>(this->storage(), this->instruction());
   }
 
-  void swap(const int_vector_cref<T> &other) const { base_type::swap(other); }
+  void swap(const int_vector_mref<T> &other) const { base_type::swap(other); }
 };
 
 typedef vector_mref<unsigned char> byte_vector_mref;
-- 
2.43.0


From a450da7a854126ab4ab10a003f57934c318a046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:27 +0000
Subject: [PATCH 36/62] fix: operator> of strings was true for equal strings

---
 src/mfast/string_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/string_ref.h b/src/mfast/string_ref.h
index 87d01fa..ec203dd 100644
--- a/src/mfast/string_ref.h
+++ b/src/mfast/string_ref.h
@@ -48,7 +48,7 @@ public:
   }
   template <typename OtherIntruction>
   bool operator>(const string_cref_base<OtherIntruction> &other) const {
-    return compare(other) >= 0;
+    return compare(other) > 0;
   }
 
   bool operator>=(const boost::string_ref &other) const {
-- 
2.43.0


From 7193eb7710d434c3ee36e50421c0ecb76ad12c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:27 +0000
Subject: [PATCH 37/62] fix: copying strings and vectors read one element past
 the end

---
 src/mfast/instructions/string_instructions.cpp     | 3 ++-
 src/mfast/instructions/vector_instruction_base.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mfast/instructions/string_instructions.cpp b/src/mfast/instructions/string_instructions.cpp
index 334dfda..dbdb14c 100644
--- a/src/mfast/instructions/string_instructions.cpp
+++ b/src/mfast/instructions/string_instructions.cpp
@@ -49,8 +49,9 @@ void ascii_field_instruction::copy_construct_value(const value_storage &src,
     dest.of_array.content_ = nullptr;
     dest.of_array.capacity_in_bytes_ =
         alloc->reallocate(dest.of_array.content_, 0, len * element_size_);
+    // there may be nothing behind the content of src
     std::memcpy(dest.of_array.content_, src.of_array.content_,
-                len * element_size_);
+                (len - 1) * element_size_);
   } else {
     dest.of_array.content_ = src.of_array.content_;
     dest.of_array.capacity_in_bytes_ = 0;
diff --git a/src/mfast/instructions/vector_instruction_base.cpp b/src/mfast/instructions/vector_instruction_base.cpp
index 9c752ca..b10b96a 100644
--- a/src/mfast/instructions/vector_instruction_base.cpp
+++ b/src/mfast/instructions/vector_instruction_base.cpp
@@ -30,8 +30,9 @@ void vector_field_instruction_base::copy_construct_value(
     dest.of_array.content_ = nullptr;
     dest.of_array.capacity_in_bytes_ = alloc->reallocate(
         dest.of_array.content_, 0, src.of_array.len_ * element_size_);
+    // there may be nothing behind the content of src
     std::memcpy(dest.of_array.content_, src.of_array.content_,
-                src.of_array.len_ * element_size_);
+                (src.of_array.len_ - 1) * element_size_);
   } else {
     dest.of_array.capacity_in_bytes_ = 0;
     dest.of_array.content_ = nullptr;
-- 
2.43.0


From 54510375e9ee198a2e9f764575dd02c293233b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:27 +0000
Subject: [PATCH 38/62] fix: encoders refused buffers of exactly the size of
 the message

---
 src/mfast/coder/encoder/fast_ostreambuf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_ostreambuf.h b/src/mfast/coder/encoder/fast_ostreambuf.h
index aca01b3..257d46e 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.h
+++ b/src/mfast/coder/encoder/fast_ostreambuf.h
@@ -57,7 +57,7 @@ inline void fast_ostreambuf::sputc(char c) {
 }
 
 inline void fast_ostreambuf::sputn(const char *data, std::size_t n) {
-  while (pptr_ + n >= epptr_)
+  while (n > static_cast<std::size_t>(epptr_ - pptr_))
     overflow(n);
 
   std::copy(data, data + n, pptr_);
@@ -65,7 +65,7 @@ inline void fast_ostreambuf::sputn(const char *data, std::size_t n) {
 }
 
 inline void fast_ostreambuf::skip(std::size_t n) {
-  while (pptr_ + n >= epptr_)
+  while (n > static_cast<std::size_t>(epptr_ - pptr_))
     overflow(n);
   pptr_ += n;
 }
-- 
2.43.0


From 91cd707f3854ffc0ab4310104817e426f39e58e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:27 +0000
Subject: [PATCH 39/62] fix: v1 encoder dereferenced a null pointer for
 messages of unknown templates

---
 src/mfast/coder/encoder/fast_encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 3de07e7..5601404 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -173,7 +173,7 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
 
   uint32_t template_id = cref.id();
 
-  template_instruction *instruction = *this->find(template_id);
+  template_instruction *instruction = this->get_template(template_id);
 
   if (instruction != nullptr) {
     constexpr std::size_t template_id_bit = 1;
-- 
2.43.0


From 986b811c1150a3e4da78af440bd2dda8678fdb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:27 +0000
Subject: [PATCH 40/62] fix: encoders left out the template identifier after a
 message that could not be encoded

---
 src/mfast/coder/encoder/fast_encoder.cpp         | 15 +++++++++++++++
 src/mfast/coder/encoder_v2/fast_encoder_core.cpp | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 5601404..93f0ee8 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -187,6 +187,20 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
   if (force_reset || instruction->has_reset_attribute())
     this->reset_dictionary();
 
+  // a message that cannot be encoded completely leaves the active template
+  // as it was
+  struct active_message_saver {
+    int64_t &active_;
+    int64_t saved_;
+    bool done_;
+    explicit active_message_saver(int64_t &active)
+        : active_(active), saved_(active), done_(false) {}
+    ~active_message_saver() {
+      if (!done_)
+        active_ = saved_;
+    }
+  } message_saver(active_message_id_);
+
   bool need_encode_template_id = (active_message_id_ != template_id);
   current_pmap().set_next_bit(need_encode_template_id);
 
@@ -209,6 +223,7 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
   }
 
   pmap.commit();
+  message_saver.done_ = true;
 }
 
 fast_encoder::fast_encoder(allocator *alloc)
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.cpp b/src/mfast/coder/encoder_v2/fast_encoder_core.cpp
index c18231a..44b3c01 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.cpp
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.cpp
@@ -20,6 +20,20 @@ void fast_encoder_core::encode_segment(const message_cref cref,
   if (force_reset || instruction->has_reset_attribute())
     repo_.reset_dictionary();
 
+  // a message that cannot be encoded completely leaves the active template
+  // as it was
+  struct active_message_saver {
+    info_entry *&active_;
+    info_entry *saved_;
+    bool done_;
+    explicit active_message_saver(info_entry *&active)
+        : active_(active), saved_(active), done_(false) {}
+    ~active_message_saver() {
+      if (!done_)
+        active_ = saved_;
+    }
+  } message_saver(active_message_info_);
+
   bool need_encode_template_id = (active_message_info_ != info);
 
   encoder_presence_map pmap;
@@ -38,6 +52,7 @@ void fast_encoder_core::encode_segment(const message_cref cref,
   (this->*encode)(message);
 
   pmap.commit();
+  message_saver.done_ = true;
 }
 
 } /* coder */
-- 
2.43.0


From 0ba69be61fc79fe24337be8f3034e157e242c267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:27 +0000
Subject: [PATCH 41/62] fix: a message that could not be encoded left garbage
 in the output vector

---
 src/mfast/coder/encoder/fast_encoder.cpp       | 8 +++++++-
 src/mfast/coder/encoder_v2/fast_encoder_core.h | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 93f0ee8..fd8291a 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -252,9 +252,15 @@ std::size_t fast_encoder::encode(const message_cref &message, char *buffer,
 
 void fast_encoder::encode(const message_cref &message,
                           std::vector<char> &buffer, bool force_reset) {
+  std::size_t old_size = buffer.size();
   resizable_fast_ostreambuf sb(buffer);
   impl_->strm_.rdbuf(&sb);
-  impl_->visit(message, force_reset);
+  try {
+    impl_->visit(message, force_reset);
+  } catch (...) {
+    buffer.resize(old_size);
+    throw;
+  }
   buffer.resize(sb.length());
 }
 
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 60373c6..685dac8 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -192,9 +192,15 @@ inline std::size_t fast_encoder_core::encode_i(const message_cref &message,
 inline void fast_encoder_core::encode_i(const message_cref &message,
                                         std::vector<char> &buffer,
                                         bool force_reset) {
+  std::size_t old_size = buffer.size();
   resizable_fast_ostreambuf sb(buffer);
   this->strm_.rdbuf(&sb);
-  this->encode_segment(message, force_reset);
+  try {
+    this->encode_segment(message, force_reset);
+  } catch (...) {
+    buffer.resize(old_size);
+    throw;
+  }
   buffer.resize(sb.length());
 }
 
-- 
2.43.0


From ca749dade4bacd9f721d9febf5bcd7fc60a42fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:43 +0000
Subject: [PATCH 42/62] fix: comparing messages ignored which optional fields
 are absent

field_comparator looked at the presence of the message instead of the
presence of its fields, so that an absent group, sequence or string compared
equal to an empty one, and comparing unbound templateRefs dereferenced a null
pointer or raised an exception.
---
 src/mfast/field_comparator.h | 47 ++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/mfast/field_comparator.h b/src/mfast/field_comparator.h
index 3749125..be9bf81 100644
--- a/src/mfast/field_comparator.h
+++ b/src/mfast/field_comparator.h
@@ -21,22 +21,42 @@ public:
   static bool compare(const aggregate_cref lhs, const aggregate_cref rhs) {
     if (lhs.num_fields() == rhs.num_fields()) {
       for (std::size_t i = 0; i < lhs.num_fields(); ++i) {
-        if (lhs.instruction()->field_type() !=
-                rhs.instruction()->field_type() ||
-            lhs.present() != rhs.present())
+        if (!compare(lhs[i], rhs[i]))
           return false;
-
-        if (lhs.present()) {
-          field_comparator comparator(rhs[i]);
-          if (!apply_accessor(comparator, lhs[i]))
-            return false;
-        }
       }
       return true;
     }
     return false;
   }
 
+  static bool compare(const field_cref lhs, const field_cref rhs) {
+    if (lhs.instruction()->field_type() != rhs.instruction()->field_type())
+      return false;
+
+    if (lhs.instruction()->field_type() == field_type_templateref)
+      return compare(static_cast<nested_message_cref>(lhs),
+                     static_cast<nested_message_cref>(rhs));
+
+    if (lhs.present() != rhs.present())
+      return false;
+
+    if (lhs.absent())
+      return true;
+
+    field_comparator comparator(rhs);
+    return apply_accessor(comparator, lhs);
+  }
+
+  static bool compare(const nested_message_cref lhs,
+                      const nested_message_cref rhs) {
+    // a dynamic templateRef may not be bound to any template
+    if (lhs.target_instruction() == nullptr ||
+        rhs.target_instruction() == nullptr)
+      return lhs.target_instruction() == rhs.target_instruction();
+    return compare(static_cast<aggregate_cref>(lhs),
+                   static_cast<aggregate_cref>(rhs));
+  }
+
   bool visit(const aggregate_cref &lhs, int) const {
     return compare(lhs, static_cast<aggregate_cref>(rhs_));
   }
@@ -45,7 +65,8 @@ public:
     sequence_cref rhs = static_cast<sequence_cref>(rhs_);
     if (lhs.num_fields() == rhs.num_fields() && lhs.size() == rhs.size()) {
       for (std::size_t i = 0; i < lhs.size(); ++i) {
-        if (!compare(lhs[i], rhs[i]))
+        if (!compare(static_cast<aggregate_cref>(lhs[i]),
+                     static_cast<aggregate_cref>(rhs[i])))
           return false;
       }
       return true;
@@ -60,11 +81,7 @@ inline bool operator==(const aggregate_cref &lhs, const aggregate_cref &rhs) {
 }
 
 inline bool operator==(const field_cref &lhs, const field_cref &rhs) {
-  if (lhs.instruction()->field_type() != rhs.instruction()->field_type())
-    return false;
-
-  detail::field_comparator comparator(rhs);
-  return apply_accessor(comparator, lhs);
+  return detail::field_comparator::compare(lhs, rhs);
 }
 
 using namespace std::rel_ops;
-- 
2.43.0


From bcaf78fd2618a86ac1080d27abf61aa5dea24cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:43 +0000
Subject: [PATCH 43/62] fix: copying a message without a template dereferenced
 a null pointer

---
 src/mfast/composite_type.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mfast/composite_type.h b/src/mfast/composite_type.h
index 1fc5d76..0396cd8 100644
--- a/src/mfast/composite_type.h
+++ b/src/mfast/composite_type.h
@@ -173,8 +173,9 @@ inline composite_type<CRef>::composite_type(const CRef &other,
 template <typename CRef>
 inline composite_type<CRef>::composite_type(const composite_type &other)
     : alloc_(other.alloc_), instruction_(other.instruction_) {
-  this->instruction()->copy_construct_value(other.my_storage_, my_storage_,
-                                            alloc_, nullptr);
+  if (this->instruction())
+    this->instruction()->copy_construct_value(other.my_storage_, my_storage_,
+                                              alloc_, nullptr);
 }
 
 template <typename CRef>
-- 
2.43.0


From d94902c526e26dce214bc33f87561ca351d57308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:43 +0000
Subject: [PATCH 44/62] fix: assigning to an element of a sequence copied
 uninitialized memory

The instruction of an element may be the sequence's, whose
copy_construct_value() copies a sequence, not the fields of an element.
---
 src/mfast/aggregate_ref.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/mfast/aggregate_ref.h b/src/mfast/aggregate_ref.h
index 9d03c43..0d2f105 100644
--- a/src/mfast/aggregate_ref.h
+++ b/src/mfast/aggregate_ref.h
@@ -355,17 +355,13 @@ void make_aggregate_mref<ConstRef>::as(const ConstRef &other) const {
   value_storage *new_content = reinterpret_cast<value_storage *>(buf + sz);
   // the first chuck for storing the original content
   std::memcpy(orig_content, this->storage_array_, sz);
-  value_storage tmp_storage;
 
-  // the second chunk for construct the new aggregate value
-
-  value_storage other_storage;
-  other_storage.of_group.own_content_ = false;
-  other_storage.of_group.content_ = const_cast<value_storage *>(
-      aggregate_cref_core_access::storage_of(other));
-
-  this->instruction()->copy_construct_value(other_storage, tmp_storage,
-                                            this->alloc_, new_content);
+  // the second chunk for construct the new aggregate value; this has to work
+  // for elements of sequences as well, whose instruction may be the one of
+  // the sequence.
+  this->instruction()->copy_group_subfields(
+      aggregate_cref_core_access::storage_of(other), new_content,
+      this->alloc_);
 
   // copy the newly construct aggregate value to the old memory chunk
   std::memcpy(const_cast<value_storage *>(this->storage_array_), new_content,
-- 
2.43.0


From 4a38fbf064b61c8d58c67f50ea155e5638528760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:43 +0000
Subject: [PATCH 45/62] fix: sequences could not be assigned from sequences

make_sequence_mref::as(cref_type) and assign() with iterators of a sequence
did not compile.
---
 src/mfast/sequence_ref.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mfast/sequence_ref.h b/src/mfast/sequence_ref.h
index 384abac..d019984 100644
--- a/src/mfast/sequence_ref.h
+++ b/src/mfast/sequence_ref.h
@@ -355,10 +355,9 @@ public:
   template <typename RandomAccessIterator>
   void assign(RandomAccessIterator first, RandomAccessIterator last) const {
     resize(std::distance(first, last));
-    RandomAccessIterator itr;
     iterator dest = begin();
-    for (itr = first; itr != last; ++itr, ++dest)
-      dest->as(*itr);
+    for (; first != last; ++first, ++dest)
+      dest->as(*first);
   }
 
   template <typename Range> void as(Range r) const {
@@ -453,9 +452,10 @@ inline void
 make_sequence_mref<ElementType, SequenceTrait, SequenceInstructionType>::as(
     const cref_type &src) const {
   value_storage tmp_storage;
-  this->instruction()->copy_construct_value(*src.storage_, tmp_storage,
-                                            this->alloc_);
+  this->instruction()->copy_construct_value(
+      *field_cref_core_access::storage_of(src), tmp_storage, this->alloc_,
+      nullptr);
   std::swap(tmp_storage, const_cast<value_storage &>(*this->storage_));
-  this->instruction()->destruct_value(tmp_storage);
+  this->instruction()->destruct_value(tmp_storage, this->alloc_);
 }
 }
-- 
2.43.0


From 301e53d2eb12d78f78ff74e8897951999f8d842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:43 +0000
Subject: [PATCH 46/62] fix: crend() of a sequence returned the beginning

---
 src/mfast/sequence_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/sequence_ref.h b/src/mfast/sequence_ref.h
index d019984..e42e26d 100644
--- a/src/mfast/sequence_ref.h
+++ b/src/mfast/sequence_ref.h
@@ -250,7 +250,7 @@ public:
     return boost::make_reverse_iterator(this->begin());
   }
   const_reverse_iterator crbegin() const { return this->rbegin(); }
-  const_reverse_iterator crend() const { return this->rbegin(); }
+  const_reverse_iterator crend() const { return this->rend(); }
   /**
    * @returns true if the sequence contains only one sub-field and the field is
    *unnamed.
-- 
2.43.0


From d4a20d550f087e0d8e87f5029d40911ec8f9ef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 47/62] fix: elements with an ns attribute were looked up as
 types of that namespace

---
 src/mfast/xml_parser/field_builder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 4a5f89b..5722674 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -118,7 +118,10 @@ const field_instruction *field_builder::find_prototype(const char *type_name) {
   }
 
   if (instruction == nullptr) {
-    instruction = this->find_type(ns_, type_name);
+    // the ns attribute of an element other than <type> names the field itself
+    bool is_type_ref =
+        content_element_ && std::strcmp(content_element_->Name(), "type") == 0;
+    instruction = this->find_type(is_type_ref ? ns_ : nullptr, type_name);
   }
 
   if (instruction == nullptr) {
-- 
2.43.0


From 414a76637df594110a7bc3337e12fc9b33349f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 48/62] fix: an operator without ns dropped the namespace of
 its field

---
 src/mfast/coder/common/dictionary_builder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index f6e60fb..e8c0a6d 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -192,7 +192,8 @@ value_storage *dictionary_builder::get_dictionary_storage(
   if (op_context) {
     if (!is_empty_string(op_context->key_))
       key = op_context->key_;
-    ns = op_context->ns_;
+    if (!is_empty_string(op_context->ns_))
+      ns = op_context->ns_;
     dict = op_context->dictionary_;
   }
 
-- 
2.43.0


From 6679652d17347a31de8e3a76799a0017536f3d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 49/62] fix: a typeRef without ns did not inherit the namespace

---
 src/mfast/coder/common/dictionary_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index e8c0a6d..f5b5d69 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -70,7 +70,7 @@ void dictionary_builder::build_group(const field_instruction *fi,
 
   if (!is_empty_string(src->typeref_name())) {
     const char *type_ns = this->current_ns_;
-    if (!is_empty_string(src->typeref_name())) {
+    if (!is_empty_string(src->typeref_ns())) {
       type_ns = src->typeref_ns();
     }
     current_type_ = qualified_name(type_ns, src->typeref_name());
-- 
2.43.0


From 7fc0695af9f88b7697d6cf9482f4a17d97a22429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 50/62] fix: the length of a sequence was looked up outside of
 the sequence

---
 src/mfast/coder/common/dictionary_builder.cpp | 46 +++++++++++--------
 src/mfast/coder/common/dictionary_builder.h   |  3 ++
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index f5b5d69..b9a8c90 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -59,7 +59,26 @@ void dictionary_builder::build_group(const field_instruction *fi,
   const char *inherited_ns = current_ns_;
   const char *inherited_dictionary = current_dictionary_;
   std::string inherited_type = current_type_;
+  this->enter_group(fi, src);
 
+  std::size_t instructions_count = src->subinstructions().size();
+  const_instruction_ptr_t *subinstructions =
+      static_cast<const_instruction_ptr_t *>(
+          alloc_.allocate(instructions_count * sizeof(field_instruction *)));
+  for (size_t i = 0; i < instructions_count; ++i) {
+    src->subinstruction(i)->accept(*this, &subinstructions[i]);
+  }
+
+  dest->set_subinstructions(
+      instructions_view_t(subinstructions, instructions_count));
+
+  current_type_ = inherited_type;
+  current_ns_ = inherited_ns;
+  current_dictionary_ = inherited_dictionary;
+}
+
+void dictionary_builder::enter_group(const field_instruction *fi,
+                                     const group_field_instruction *src) {
   if (!is_empty_string(fi->ns())) {
     this->current_ns_ = fi->ns();
   }
@@ -75,21 +94,6 @@ void dictionary_builder::build_group(const field_instruction *fi,
     }
     current_type_ = qualified_name(type_ns, src->typeref_name());
   }
-
-  std::size_t instructions_count = src->subinstructions().size();
-  const_instruction_ptr_t *subinstructions =
-      static_cast<const_instruction_ptr_t *>(
-          alloc_.allocate(instructions_count * sizeof(field_instruction *)));
-  for (size_t i = 0; i < instructions_count; ++i) {
-    src->subinstruction(i)->accept(*this, &subinstructions[i]);
-  }
-
-  dest->set_subinstructions(
-      instructions_view_t(subinstructions, instructions_count));
-
-  current_type_ = inherited_type;
-  current_ns_ = inherited_ns;
-  current_dictionary_ = inherited_dictionary;
 }
 
 template_instruction *
@@ -161,12 +165,16 @@ void dictionary_builder::visit(const sequence_field_instruction *src_inst,
   }
 
   if (src_inst->length_instruction()) {
-    // the length belongs to the sequence, so does its dictionary
+    // the length belongs to the sequence, so do its dictionary, namespace and
+    // type
+    const char *inherited_ns = current_ns_;
     const char *inherited_dictionary = current_dictionary_;
-    if (!is_empty_string(src_inst->dictionary()))
-      this->current_dictionary_ = src_inst->dictionary();
+    std::string inherited_type = current_type_;
+    this->enter_group(src_inst, src_inst);
     visit(src_inst->length_instruction(), &dest->sequence_length_instruction_);
-    this->current_dictionary_ = inherited_dictionary;
+    current_type_ = inherited_type;
+    current_ns_ = inherited_ns;
+    current_dictionary_ = inherited_dictionary;
   } else {
     dest->sequence_length_instruction_ = new (alloc_)
         uint32_field_instruction(operator_none, presence_mandatory, 0, "", "",
diff --git a/src/mfast/coder/common/dictionary_builder.h b/src/mfast/coder/common/dictionary_builder.h
index d9ef80a..e2fb5b7 100644
--- a/src/mfast/coder/common/dictionary_builder.h
+++ b/src/mfast/coder/common/dictionary_builder.h
@@ -127,6 +127,9 @@ private:
   void build_group(const field_instruction *fi,
                    const group_field_instruction *src,
                    group_field_instruction *dest);
+  // makes the namespace, dictionary and type of a group the current ones
+  void enter_group(const field_instruction *fi,
+                   const group_field_instruction *src);
 
   value_storage *get_dictionary_storage(const char *key, const char *ns,
                                         const op_context_t *op_context,
-- 
2.43.0


From b35b32eedcc86de4842ed4b416118018129c14bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 51/62] fix: decimals like -0.5 were read from text without the
 sign

---
 src/mfast/value_storage.cpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/mfast/value_storage.cpp b/src/mfast/value_storage.cpp
index a13f00f..76c4e3a 100644
--- a/src/mfast/value_storage.cpp
+++ b/src/mfast/value_storage.cpp
@@ -8,12 +8,16 @@
 #include <algorithm>
 #include <cstdio>
 #include <iterator>
+#include <limits>
 
 namespace mfast {
 std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
 
   int64_t mantissa;
-  int16_t exponent = 0;
+  int exponent = 0;
+  // the integer part of a number like -0.5 doesn't tell the sign
+  strm >> std::ws;
+  const bool negative = strm.peek() == '-';
   if (!(strm >> std::skipws >> mantissa)) {
     return strm;
   }
@@ -23,22 +27,21 @@ std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
 
   int c = sbuf->sbumpc();
   if (c == '.') {
-    bool negative = false;
-
-    if (mantissa < 0) {
-      negative = true;
-      mantissa = -mantissa;
-    }
-
+    const int64_t max = std::numeric_limits<int64_t>::max();
+    const int64_t min = std::numeric_limits<int64_t>::min();
     while ((c = sbuf->sbumpc()) != EOF && isdigit(c)) {
+      const int digit = c - '0';
+      if ((negative
+               ? mantissa < min / 10 || (mantissa == min / 10 && digit > 8)
+               : mantissa > max / 10 || (mantissa == max / 10 && digit > 7)) ||
+          exponent <= std::numeric_limits<int16_t>::min()) {
+        strm.setstate(std::ios::failbit);
+        return strm;
+      }
       mantissa *= 10;
-      mantissa += c - '0';
+      mantissa += negative ? -digit : digit;
       exponent -= 1;
     }
-
-    if (negative) {
-      mantissa = -mantissa;
-    }
   }
 
   if (c == 'e' || c == 'E') {
@@ -47,11 +50,16 @@ std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
       return strm;
     }
     exponent += exp;
+    if (exponent > std::numeric_limits<int16_t>::max() ||
+        exponent < std::numeric_limits<int16_t>::min()) {
+      strm.setstate(std::ios::failbit);
+      return strm;
+    }
   } else if (c != EOF) {
     strm.putback(c);
   }
   storage.mantissa(mantissa);
-  storage.exponent(exponent);
+  storage.exponent(static_cast<int16_t>(exponent));
   storage.storage_.present(1);
   return strm;
 }
-- 
2.43.0


From 7f8b8d71ca3f85928bc703e8c4b28a4d0fe2d17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 52/62] fix: decimals with a positive exponent were written as
 text that cannot be read back

---
 src/mfast/value_storage.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mfast/value_storage.cpp b/src/mfast/value_storage.cpp
index 76c4e3a..f2e326c 100644
--- a/src/mfast/value_storage.cpp
+++ b/src/mfast/value_storage.cpp
@@ -93,8 +93,18 @@ std::ostream &operator<<(std::ostream &os,
   int exponent = storage.exponent();
 
   if (exponent >= 0) {
-    os << mantissa;
-    std::fill_n(std::ostream_iterator<char>(os), exponent, '0');
+    int64_t value = mantissa;
+    int remaining = exponent;
+    while (remaining > 0 && value <= std::numeric_limits<int64_t>::max() / 10 &&
+           value >= std::numeric_limits<int64_t>::min() / 10) {
+      value *= 10;
+      --remaining;
+    }
+    // a number which doesn't fit can only be read back in exponent notation
+    if (remaining == 0)
+      os << value;
+    else
+      os << mantissa << 'e' << exponent;
   } else if (exponent < 0) {
     char buf[128];
 
-- 
2.43.0


From ef0f2e44b4ed59f5cbe1a92d20d172fcf05edf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 53/62] fix: JSON strings were cut at a NUL character

---
 src/mfast/json/json_encode.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index b563ee3..5cbde75 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -9,6 +9,7 @@
 #include "../nested_message_ref.h"
 #include <boost/io/ios_state.hpp>
 #include <cstdio>
+#include <cstring>
 #ifdef _MSC_VER // someday someone at microsoft will read the C++11 standard.
 #define snprintf _snprintf
 #else // _MSCVER
@@ -20,16 +21,19 @@ namespace json {
 namespace encode_detail {
 
 struct quoted_string {
-  quoted_string(const char *str) : str_(str) {}
+  quoted_string(const char *str) : str_(str), size_(std::strlen(str)) {}
+  quoted_string(const char *str, std::size_t size) : str_(str), size_(size) {}
 
   const char *str_;
+  std::size_t size_;
 };
 
 std::ostream &operator<<(std::ostream &os, quoted_string str) {
   os.put('"');
   const char *ptr = str.str_;
-  char c;
-  while ((c = *ptr++) != '\0') {
+  const char *end = ptr + str.size_;
+  while (ptr != end) {
+    char c = *ptr++;
     // According to ECMA-404, the control charanter (U+0000 to U+001F) must be
     // escaped
     if ((c & 0xE0) == 0) {
@@ -86,7 +90,7 @@ public:
   }
 
   template <typename Char> void visit(const mfast::string_cref<Char> &ref) {
-    strm_ << separator_ << quoted_string(ref.c_str());
+    strm_ << separator_ << quoted_string(ref.data(), ref.size());
   }
 
   void visit(const mfast::byte_vector_cref &ref) {
-- 
2.43.0


From 830f41f753fbe8d59f746a28ec7e6a9b55678f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 54/62] fix: JSON byte vectors lacked leading zeros of their
 bytes

---
 src/mfast/json/json_encode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index 5cbde75..d9e804b 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -105,13 +105,13 @@ public:
       // json doesn't have byte vector, treat it as hex string now
       strm_ << separator_ << "\"";
       boost::io::ios_flags_saver ifs(strm_);
-      strm_ << std::hex << std::setfill('0') << std::setw(2);
+      strm_ << std::hex << std::setfill('0');
 
       for (std::size_t i = 0; i < ref.size(); ++i) {
         // if the size is 16, we treat it as a UUID
         if (ref.size() == 16 && (i == 4 || i == 6 || i == 8 || i == 10))
           strm_ << '-';
-        strm_ << (0xFF & (int)ref[i]);
+        strm_ << std::setw(2) << (0xFF & (int)ref[i]);
       }
       strm_ << "\"" << std::setfill(' ');
     }
-- 
2.43.0


From ab6fb9b807c548a4890d9a61e84136ed19526962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 55/62] fix: no separator in front of JSON objects kept as text

---
 src/mfast/json/json_encode.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index d9e804b..df184a3 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -99,6 +99,7 @@ public:
       // json encoded object already, just write it as it is without any
       // processing.
 
+      strm_ << separator_;
       strm_.rdbuf()->sputn(reinterpret_cast<const char *>(ref.data()),
                            ref.size());
     } else {
-- 
2.43.0


From 19253bfb0aa2208d3d9c24e986d86cc8b4d3f081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 56/62] fix: JSON arrays could not be decoded into vectors

---
 src/mfast/json/json_decode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 07a1db8..9af459a 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -397,7 +397,7 @@ struct decode_visitor {
     }
   }
 
-  template <typename IntType> void visit(int_vector_mref<IntType> &ref) {
+  template <typename IntType> void visit(const int_vector_mref<IntType> &ref) {
     ref.clear();
     if (!parse_array_preamble(strm_))
       return;
@@ -408,7 +408,7 @@ struct decode_visitor {
     do {
       ref.resize(i + 1);
 
-      strm_ >> ref[i] >> std::skipws >> c;
+      strm_ >> ref[i++] >> std::skipws >> c;
 
       if (!strm_.good())
         BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect integer"));
-- 
2.43.0


From b15f2b87bd35f8c8fdc010090e667c42c394cda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 57/62] fix: the character 0xff ended JSON strings

---
 src/mfast/json/json_decode.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 9af459a..64cfbe5 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -97,13 +97,14 @@ bool get_quoted_string(std::istream &strm, std::string *pstr,
                        bool first_quote_extracted = false) {
   std::streambuf *buf = strm.rdbuf();
 
-  char c = 0;
+  int c = 0;
   if (!first_quote_extracted) {
+    char quote = 0;
     // make sure the first non-whitespace character is a quote
 
-    strm >> std::skipws >> c;
+    strm >> std::skipws >> quote;
 
-    if (c != '"') {
+    if (quote != '"') {
       strm.setstate(std::ios::failbit);
     }
 
@@ -112,7 +113,7 @@ bool get_quoted_string(std::istream &strm, std::string *pstr,
           json_decode_error(strm, "No opening quotation mark"));
 
     if (pref)
-      pref->push_back(c);
+      pref->push_back(quote);
   }
 
   if (pstr)
@@ -123,10 +124,10 @@ bool get_quoted_string(std::istream &strm, std::string *pstr,
   do {
     c = buf->sbumpc();
 
-    if (pref)
-      pref->push_back(c);
-
     if (c != EOF) {
+      if (pref)
+        pref->push_back(static_cast<unsigned char>(c));
+
       if (!escaped) {
         if (c == '\\') {
           escaped = true;
-- 
2.43.0


From 8bb137bbdccaa0a833b7d78ada3592fdb4d23306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 58/62] fix: empty JSON arrays were decoded as absent

---
 src/mfast/json/json_decode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 64cfbe5..531e27f 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -399,7 +399,7 @@ struct decode_visitor {
   }
 
   template <typename IntType> void visit(const int_vector_mref<IntType> &ref) {
-    ref.clear();
+    ref.resize(0);
     if (!parse_array_preamble(strm_))
       return;
 
@@ -512,7 +512,7 @@ bool decode_visitor::visit_impl(const mfast::aggregate_mref &ref) {
 }
 
 void decode_visitor::visit(const mfast::sequence_mref &ref, int) {
-  ref.clear();
+  ref.resize(0);
   if (!parse_array_preamble(strm_))
     return;
 
-- 
2.43.0


From 10c04c32edc58547a98816cc3e93ebba2325f709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:44 +0000
Subject: [PATCH 59/62] fix: JSON strings were cut at a NUL character (layout
 of quoted_string unchanged)

---
 src/mfast/json/json_encode.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index df184a3..bf98c88 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -21,18 +21,14 @@ namespace json {
 namespace encode_detail {
 
 struct quoted_string {
-  quoted_string(const char *str) : str_(str), size_(std::strlen(str)) {}
-  quoted_string(const char *str, std::size_t size) : str_(str), size_(size) {}
+  quoted_string(const char *str) : str_(str) {}
 
   const char *str_;
-  std::size_t size_;
 };
 
-std::ostream &operator<<(std::ostream &os, quoted_string str) {
+void write_quoted(std::ostream &os, const char *ptr, std::size_t size) {
   os.put('"');
-  const char *ptr = str.str_;
-  const char *end = ptr + str.size_;
-  while (ptr != end) {
+  for (const char *end = ptr + size; ptr != end;) {
     char c = *ptr++;
     // According to ECMA-404, the control charanter (U+0000 to U+001F) must be
     // escaped
@@ -55,6 +51,10 @@ std::ostream &operator<<(std::ostream &os, quoted_string str) {
     os.put(c);
   }
   os.put('"');
+}
+
+std::ostream &operator<<(std::ostream &os, quoted_string str) {
+  write_quoted(os, str.str_, std::strlen(str.str_));
   return os;
 }
 
@@ -90,7 +90,8 @@ public:
   }
 
   template <typename Char> void visit(const mfast::string_cref<Char> &ref) {
-    strm_ << separator_ << quoted_string(ref.data(), ref.size());
+    strm_ << separator_;
+    write_quoted(strm_, ref.data(), ref.size());
   }
 
   void visit(const mfast::byte_vector_cref &ref) {
-- 
2.43.0


From 3707b3b4e0a2231928c306feec04adbf0d5ff95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:24 +0000
Subject: [PATCH 60/62] fix: JSON numbers below zero were decoded into unsigned
 fields

---
 src/mfast/json/json_decode.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 531e27f..cd44e4b 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -8,6 +8,7 @@
 #include "../group_ref.h"
 #include "../field_visitor.h"
 #include "../nested_message_ref.h"
+#include <limits>
 #include <boost/regex/pending/unicode_iterator.hpp>
 namespace mfast {
 
@@ -307,9 +308,19 @@ struct decode_visitor {
   decode_visitor(std::istream &strm, unsigned json_object_tag_mask)
       : strm_(strm), json_object_tag_mask_(json_object_tag_mask) {}
 
+  // the stream would read a negative number as a large unsigned one
+  template <typename T> void check_sign() {
+    if (!std::numeric_limits<T>::is_signed && (strm_ >> std::ws).peek() == '-') {
+      strm_.setstate(std::ios::failbit);
+      BOOST_THROW_EXCEPTION(
+          json_decode_error(strm_, "Expect unsigned value", '-'));
+    }
+  }
+
   template <typename NumericTypeMref> void visit(const NumericTypeMref &ref) {
     typedef typename NumericTypeMref::value_type value_type;
     value_type value;
+    check_sign<value_type>();
     if (strm_ >> value, strm_.good())
       ref.as(value);
     else
@@ -409,6 +420,7 @@ struct decode_visitor {
     do {
       ref.resize(i + 1);
 
+      check_sign<IntType>();
       strm_ >> ref[i++] >> std::skipws >> c;
 
       if (!strm_.good())
-- 
2.43.0


From 521197b23e73fb1c1fbd90b7ff50f156037c92f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:25 +0000
Subject: [PATCH 61/62] fix: JSON objects kept as text were appended to the
 previous content

---
 src/mfast/json/json_decode.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index cd44e4b..5d04ec7 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -390,6 +390,7 @@ struct decode_visitor {
       char c = 0;
       strm_ >> std::skipws >> c;
       if (strm_.good() && c == '{') {
+        ref.resize(0);
         ref.push_back(c);
         if (skip_matching(strm_, c, &ref)) {
           return;
-- 
2.43.0


From 98ca52f15c7028d8dfeb2876f4baae955a7485af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:25 +0000
Subject: [PATCH 62/62] fix: JSON arrays that end early were accepted

---
 src/mfast/json/json_decode.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 5d04ec7..23a21f7 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -540,13 +540,11 @@ void decode_visitor::visit(const mfast::sequence_mref &ref, int) {
     else
       this->visit_impl(element);
 
+    c = 0;
     strm_ >> std::skipws >> c;
+  } while (strm_.good() && c == ',');
 
-    if (!strm_.good())
-      return;
-  } while (c == ',');
-
-  if (c == ']')
+  if (strm_.good() && c == ']')
     return;
   strm_.setstate(std::ios::failbit);
   BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect ]", c));
-- 
2.43.0

