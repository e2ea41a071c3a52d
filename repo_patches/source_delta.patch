From a15a353aef02b58f51ab21423170eb00b2657453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 001/119] fix: accept an ns attribute on fields of builtin
 types

---
 src/mfast/xml_parser/field_builder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 367d7ba..db6342f 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -119,6 +119,10 @@ const field_instruction *field_builder::find_prototype(const char *type_name) {
 
   if (instruction == nullptr) {
     instruction = this->find_type(ns_, type_name);
+    // the ns attribute of a field qualifies the field name rather than the
+    // builtin types.
+    if (instruction == nullptr && ns_ != nullptr)
+      instruction = this->find_type(nullptr, type_name);
   }
 
   if (instruction == nullptr) {
-- 
2.43.0


From 3753e3911e0f9be2388fa57cca7ad7158d4fc0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:19 +0000
Subject: [PATCH 002/119] fix: resolve initial values of enum and set fields
 after their elements are known

---
 src/mfast/xml_parser/field_builder.cpp | 60 +++++++++++---------------
 1 file changed, 25 insertions(+), 35 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index db6342f..369f7e3 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -537,7 +537,8 @@ bool parse_enum_value(const char **enum_element_names,
     // FAST 1.2 does not cleary specify what a default enum value refers to,
     // search for a match in either name or value/deduce_value
     if (std::strcmp(enum_element_names[i], value_name) == 0 ||
-       (value_int.has_value() && enum_element_values[i] == *value_int)) {
+       (value_int.has_value() &&
+        (enum_element_values ? enum_element_values[i] : i) == *value_int)) {
           if (enum_element_values)
             result = enum_element_values[i];
           else
@@ -612,9 +613,6 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
       if (name_attr == nullptr)
         name_attr = xml_element->Attribute("name");
       if (name_attr != nullptr) {
-        if (init_value_str && std::strcmp(name_attr, init_value_str) == 0) {
-          fop.initial_value_.set<uint64_t>(names.size());
-        }
         names.push_back(string_dup(name_attr, alloc()));
 
         const char *value_str = xml_element->Attribute("value");
@@ -648,10 +646,11 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
       std::copy(values.begin(), values.end(), values_array);
       enum_element_values = values_array;
     }
-  } else if (init_value_str) {
-    // In this case, the element names are already defined, but we haven't
-    // decide what the specified
-    // initial value is.
+  }
+
+  if (init_value_str) {
+    // the element names are known by now, but we haven't decide what the
+    // specified initial value is.
 
     uint64_t init_value;
     if (parse_enum_value(enum_element_names, enum_element_values, num_elements,
@@ -717,9 +716,6 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
          xml_element = xml_element->NextSiblingElement("element")) {
       const char *name_attr = xml_element->Attribute("name");
       if (name_attr != nullptr) {
-        if (init_value_str && std::strcmp(name_attr, init_value_str) == 0) {
-          fop.initial_value_.set<uint64_t>(names.size());
-        }
         names.push_back(string_dup(name_attr, alloc()));
 
         const char *value_str = xml_element->Attribute("value");
@@ -749,10 +745,11 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
       std::copy(values.begin(), values.end(), values_array);
       enum_element_values = values_array;
     }
-  } else if (init_value_str) {
-    // In this case, the element names are already defined, but we haven't
-    // decide what the specified
-    // initial value is.
+  }
+
+  if (init_value_str) {
+    // the element names are known by now, but we haven't decide what the
+    // specified initial value is.
 
     uint64_t init_value;
     if (parse_enum_value(enum_element_names, enum_element_values, num_elements,
@@ -816,8 +813,6 @@ void field_builder::visit(const set_field_instruction *inst, void *)
         name_attr = xml_elt->Attribute("name");
       if (name_attr != nullptr)
       {
-        if (init_value_str && std::strcmp(name_attr, init_value_str) == 0)
-          fop.initial_value_.set<uint64_t>(1 << names.size());
         names.push_back(string_dup(name_attr, alloc()));
       }
     }
@@ -826,26 +821,21 @@ void field_builder::visit(const set_field_instruction *inst, void *)
       (alloc().allocate(names.size() * sizeof(const char*)));
     std::copy(names.begin(), names.end(), set_element_names);
   }
-  else
-    if (init_value_str)
-    {
-      boost::optional<std::uint64_t> value_int;
-      try
-      {
-        value_int = std::stoul(init_value_str);
-      } catch (...) {}
-      if (value_int)
-        fop.initial_value_.set<uint64_t>(*value_int);
-      else
+
+  if (init_value_str)
+  {
+    boost::optional<std::uint64_t> init_value;
+    for (auto i = 0ul; i < num_elements; ++i)
+      if (std::strcmp(set_element_names[i], init_value_str) == 0)
       {
-        for (auto i = 0ul; i < num_elements; ++i)
-          if (std::strcmp(set_element_names[i], init_value_str) == 0)
-          {
-            fop.initial_value_.set<uint64_t>(1 << i);
-            break;
-          }
+        init_value = UINT64_C(1) << i;
+        break;
       }
-    }
+    if (!init_value)
+      init_value = boost::lexical_cast<std::uint64_t>(init_value_str);
+    fop.initial_value_ = value_storage(0); // reset the storage to defined value
+    fop.initial_value_.set<uint64_t>(*init_value);
+  }
 
   auto instruction = new (alloc()) set_field_instruction(
       fop.op_, get_presence(inst), get_id(inst), get_name(alloc()),
-- 
2.43.0


From 9a2b25512b36091c42f1266f120fb086a394865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:12 +0000
Subject: [PATCH 003/119] fix: decode integers without overflow and report out
 of range values

---
 src/mfast/coder/decoder/fast_istream.h | 126 ++++++++-----------------
 1 file changed, 39 insertions(+), 87 deletions(-)

diff --git a/src/mfast/coder/decoder/fast_istream.h b/src/mfast/coder/decoder/fast_istream.h
index 7a4b844..debece6 100644
--- a/src/mfast/coder/decoder/fast_istream.h
+++ b/src/mfast/coder/decoder/fast_istream.h
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #pragma once
 
+#include <cstdint>
 #include <limits>
 
 #include "../../instructions/string_instructions.h"
@@ -139,109 +140,60 @@ private:
   std::ostream *warning_log_;
 };
 
-namespace detail {
-template <typename T> struct int_trait;
-
-template <>
-struct int_trait<int16_t> // only used for decoding decimal exponent
-{
-  typedef int16_t temp_type;
-};
-
-template <> struct int_trait<int32_t> { typedef int32_t temp_type; };
-
-template <> struct int_trait<uint32_t> { typedef uint64_t temp_type; };
-
-template <> struct int_trait<int64_t> { typedef int64_t temp_type; };
-
-struct temp_uint64_t {
-  uint64_t value;
-  bool carry;
-
-  temp_uint64_t(int) : value(0), carry(false) {}
-  temp_uint64_t &operator=(uint64_t other) {
-    value = other;
-    return *this;
-  }
-
-  temp_uint64_t &operator|=(uint64_t other) {
-    value |= other;
-    return *this;
-  }
-
-  temp_uint64_t &
-  operator<<=(int /* shiftbits */) // shiftbits should always be 7
-  {
-    carry = (value == 0x0200000000000000ULL);
-    value <<= 7;
-    return *this;
-  }
-
-  operator uint64_t() const { return value; }
-  uint64_t operator-(int x) const { return value - x; }
-};
-
-template <typename T>
-inline bool to_nullable_value(T &result, typename int_trait<T>::temp_type tmp,
-                              int decrement_value) {
-  if (tmp == 0) {
-    return false;
-  }
-  result = static_cast<T>(tmp - decrement_value);
-  return true;
-}
-
-template <> struct int_trait<uint64_t> { typedef temp_uint64_t temp_type; };
-
-inline bool to_nullable_value(uint64_t &result, temp_uint64_t tmp,
-                              int decrement_value) {
-  if (tmp.value == 0) {
-    if (!tmp.carry)
-      return false;
-    else {
-      result = std::numeric_limits<uint64_t>::max();
-    }
-  } else
-    result = tmp - decrement_value;
-  return true;
-}
-}
-
 inline fast_istream::fast_istream(fast_istreambuf *sb)
     : buf_(sb), warning_log_(nullptr) {}
 inline void fast_istream::reset(fast_istreambuf *sb) { buf_ = sb; }
 template <typename T, typename Nullable>
 enable_if_t<std::is_integral<T>::value, bool>
 fast_istream::decode(T &result, Nullable nullable) {
-  typename detail::int_trait<T>::temp_type tmp = 0;
+  // The value is accumulated as the two's complement representation of a 64
+  // bits integer; carry is set when a non-negative value is exactly 2^64 which
+  // is the nullable representation of the maximum 64 bits unsigned integer.
+  const uint64_t max_value =
+      static_cast<uint64_t>((std::numeric_limits<T>::max)());
+  unsigned char c = buf_->sbumpc();
+  const bool negative = std::is_signed<T>::value && (c & 0x40);
+  uint64_t tmp = c & 0x7F;
+  bool carry = false;
+  bool in_range = true;
+
+  if (negative)
+    tmp |= ~UINT64_C(0x7F);
 
-  char c = buf_->sbumpc();
-  // bool decrement_value = true;
-  int decrement_value = nullable;
-  if (std::is_unsigned<T>::value) {
-    tmp = c & 0x7F;
-  } else {
-    if (c & 0x40) {
-      // this is a negative integer
-      decrement_value = 0;
-      tmp = (static_cast<T>(-1) ^ 0x7F ) | (c & 0x7F);
+  while ((c & 0x80) == 0) {
+    if (negative) {
+      in_range = in_range && tmp >= (~UINT64_C(0) << 56);
     } else {
-      // positive integer, mask the most significant two bits
-      tmp = c & 0x3F;
+      in_range = in_range && !carry && tmp <= (UINT64_C(1) << 57);
+      carry = (tmp == (UINT64_C(1) << 57));
     }
-  }
-
-  while ((c & 0x80) == 0) {
     tmp <<= 7;
     c = buf_->sbumpc();
     tmp |= (c & 0x7F);
   };
 
-  if (nullable) {
-    return detail::to_nullable_value(result, tmp, decrement_value);
+  if (negative) {
+    // The sign bit of max_value is never set for signed types; thus
+    // ~max_value is the representation of the minimum value.
+    in_range = in_range && tmp >= ~max_value;
   } else {
-    result = static_cast<T>(tmp);
+    if (nullable) {
+      if (in_range && tmp == 0 && !carry)
+        return false;
+      in_range = in_range && (!carry || tmp == 0);
+      --tmp;
+    } else {
+      in_range = in_range && !carry;
+    }
+    in_range = in_range && tmp <= max_value;
   }
+
+  // It is a dynamic error [ERR D2] if an integer in the stream does not fall
+  // within the bounds of the specific integer type.
+  if (!in_range)
+    BOOST_THROW_EXCEPTION(fast_dynamic_error("D2"));
+
+  result = static_cast<T>(tmp);
   return true;
 }
 }
-- 
2.43.0


From cdfe89495561b77c14069111a41f708609595b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 004/119] fix: check the input bounds before reading presence
 maps, strings and byte vectors

---
 src/mfast/coder/decoder/decoder_presence_map.h | 14 +++++++++-----
 src/mfast/coder/decoder/fast_istreambuf.h      | 12 ++++++++++--
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/mfast/coder/decoder/decoder_presence_map.h b/src/mfast/coder/decoder/decoder_presence_map.h
index 48b04d4..9650323 100644
--- a/src/mfast/coder/decoder/decoder_presence_map.h
+++ b/src/mfast/coder/decoder/decoder_presence_map.h
@@ -19,7 +19,8 @@ public:
   bool is_next_bit_set() {
     mask_ >>= 1;
     if (__builtin_expect(mask_ == 0 && continue_, 0)) {
-      load(continue_);
+      // the stop bit has been located already when continue_ is not null
+      load(continue_, max_load_bytes);
       mask_ >>= 1;
     }
     bool result = (cur_bitmap_ & mask_) != 0;
@@ -28,7 +29,7 @@ public:
 
   bool load(fast_istreambuf &buf) {
     const char *addr = buf.gptr();
-    bool result = load(addr);
+    bool result = load(addr, buf.in_avail());
     buf.gbump(addr - buf.gptr());
     return result;
   }
@@ -37,10 +38,13 @@ public:
   size_t mask() const { return mask_; }
 
 private:
-  bool load(const char *&addr) {
-    const int max_load_byes = sizeof(size_t) * 8 / 7;
+  static const size_t max_load_bytes = sizeof(size_t) * 8 / 7;
+
+  bool load(const char *&addr, size_t avail) {
+    if (avail > max_load_bytes)
+      avail = max_load_bytes;
     mask_ = 1;
-    for (int i = 0; i < max_load_byes; ++i, ++addr) {
+    for (size_t i = 0; i < avail; ++i, ++addr) {
       char c = *addr;
       cur_bitmap_ <<= 7;
       cur_bitmap_ |= c & '\x7F';
diff --git a/src/mfast/coder/decoder/fast_istreambuf.h b/src/mfast/coder/decoder/fast_istreambuf.h
index 39c6425..d81dcb7 100644
--- a/src/mfast/coder/decoder/fast_istreambuf.h
+++ b/src/mfast/coder/decoder/fast_istreambuf.h
@@ -38,14 +38,22 @@ protected:
   friend class fast_decoder;
   friend struct coder::fast_decoder_base;
 
-  void gbump(std::ptrdiff_t n) { gptr_ += n; }
+  void gbump(std::size_t n) {
+    if (in_avail() < n)
+      BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
+    gptr_ += n;
+  }
   unsigned char sbumpc() {
     if (in_avail() < 1)
       BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
     return *(gptr_++);
   }
 
-  char sgetc() const { return *gptr_; }
+  char sgetc() const {
+    if (in_avail() < 1)
+      BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
+    return *gptr_;
+  }
   const char *egptr() { return egptr_; }
   const char *gptr_, *egptr_;
 };
-- 
2.43.0


From 88cb69c0a61924b5a7690ab3349652bc93139aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 005/119] fix: apply string deltas correctly when the base
 value shares the field's buffer

---
 src/mfast/coder/common/codec_helper.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mfast/coder/common/codec_helper.h b/src/mfast/coder/common/codec_helper.h
index baca4c2..74207f0 100644
--- a/src/mfast/coder/common/codec_helper.h
+++ b/src/mfast/coder/common/codec_helper.h
@@ -7,6 +7,7 @@
 
 #include "../../string_ref.h"
 #include "../../exceptions.h"
+#include <vector>
 
 namespace mfast {
 namespace detail {
@@ -124,8 +125,17 @@ public:
       base_start_index = delta_len;
     }
 
+    // The base value may share the buffer of mref, in which case the content
+    // must be saved before the buffer is reallocated.
+    std::vector<typename STRING_MREF::value_type> base_copy;
+    if (base_len > 0 && base_value.of_array.content_ == mref.data() &&
+        base_len + delta_len >= mref.capacity()) {
+      base_copy.assign(base_str, base_str + base_len);
+      base_str = base_copy.data();
+    }
+
     mref.resize(base_len + delta_len);
-    if (base_str != mref.data() && (base_len > 0)) {
+    if (base_len > 0 && base_str != mref.data() + base_start_index) {
       std::memmove(mref.data() + base_start_index, base_str, base_len);
     }
     if (delta_len > 0) {
-- 
2.43.0


From b3b16895e658e4cc0df6a2a47e97d9d6bba8cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:00 +0000
Subject: [PATCH 006/119] fix: avoid signed overflow when applying delta and
 increment operators

---
 src/mfast/coder/decoder/decoder_field_operator.cpp | 12 ++++++++----
 src/mfast/coder/decoder_v2/fast_decoder_core.h     | 11 ++++++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/mfast/coder/decoder/decoder_field_operator.cpp b/src/mfast/coder/decoder/decoder_field_operator.cpp
index 68baf40..1cf8a22 100644
--- a/src/mfast/coder/decoder/decoder_field_operator.cpp
+++ b/src/mfast/coder/decoder/decoder_field_operator.cpp
@@ -301,8 +301,9 @@ public:
 
 struct increment_operation {
   template <typename T> void operator()(T &, value_storage &previous) const {
-    previous.set<typename T::value_type>(
-        previous.get<typename T::value_type>() + 1);
+    // incrementing the largest value of the type yields the smallest one
+    previous.set<typename T::value_type>(static_cast<typename T::value_type>(
+        previous.get<uint64_t>() + 1));
   }
 };
 
@@ -420,7 +421,8 @@ class delta_operator : public decoder_field_operator,
       T tmp(nullptr, &bv, nullptr);
 
       check_overflow(tmp.value(), d, mref.instruction(), stream);
-      mref.as(static_cast<typename T::value_type>(tmp.value() + d));
+      mref.as(static_cast<typename T::value_type>(
+          static_cast<uint64_t>(tmp.value()) + static_cast<uint64_t>(d)));
 
       save_previous_value(mref);
     } else {
@@ -498,7 +500,9 @@ public:
                        mref.instruction(), stream);
         check_overflow(bv.of_decimal.exponent_, mref.exponent(),
                        mref.instruction(), stream);
-        mref.set_mantissa(bv.of_decimal.mantissa_ + mref.mantissa());
+        mref.set_mantissa(static_cast<int64_t>(
+            static_cast<uint64_t>(bv.of_decimal.mantissa_) +
+            static_cast<uint64_t>(mref.mantissa())));
         mref.set_exponent(bv.of_decimal.exponent_ + mref.exponent());
         // if (mref.exponent() > 63 || mref.exponent() < -63 )
         //   BOOST_THROW_EXCEPTION(fast_reportable_error("R1"));
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index e2ec220..d285121 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -411,7 +411,9 @@ void fast_decoder_base::decode_field(const T &ext_ref, increment_operator_tag,
 
     } else {
       typedef typename T::mref_type::value_type value_type;
-      previous.set<value_type>(previous.get<value_type>() + 1);
+      // incrementing the largest value of the type yields the smallest one
+      previous.set<value_type>(
+          static_cast<value_type>(previous.get<uint64_t>() + 1));
       // if the previous value is assigned – the value of the field is the
       // previous value.
       load_previous_value(mref);
@@ -468,7 +470,8 @@ void fast_decoder_base::decode_field(const T &ext_ref, delta_operator_tag,
     typename T::mref_type tmp(nullptr, &bv, nullptr);
 
     // check_overflow(tmp.value(), d, mref.instruction(), stream);
-    mref.as(static_cast<int_type>(tmp.value() + d));
+    mref.as(static_cast<int_type>(static_cast<uint64_t>(tmp.value()) +
+                                  static_cast<uint64_t>(d)));
 
     save_previous_value(mref);
   } else {
@@ -532,7 +535,9 @@ void fast_decoder_base::decode_field(const T &ext_ref, delta_operator_tag,
     // mref.instruction(), stream);
     // check_overflow(bv.of_decimal.exponent_, mref.exponent(),
     // mref.instruction(), stream);
-    mref.set_mantissa(bv.of_decimal.mantissa_ + mref.mantissa());
+    mref.set_mantissa(
+        static_cast<int64_t>(static_cast<uint64_t>(bv.of_decimal.mantissa_) +
+                             static_cast<uint64_t>(mref.mantissa())));
     mref.set_exponent(bv.of_decimal.exponent_ + mref.exponent());
     // if (mref.exponent() > 63 || mref.exponent() < -63 )
     //   BOOST_THROW_EXCEPTION(fast_reportable_error("R1"));
-- 
2.43.0


From b81494c0b66060914275bb4d5b91b3e55cb80455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 007/119] fix: do not trust sequence and vector lengths found
 in the input when allocating

---
 src/mfast/coder/common/codec_helper.h         | 10 ++++++++++
 src/mfast/coder/decoder/fast_decoder.cpp      | 19 ++++++++++++++-----
 src/mfast/coder/decoder/fast_istream.h        |  1 +
 .../coder/decoder_v2/fast_decoder_core.h      | 11 +++++++++--
 4 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/mfast/coder/common/codec_helper.h b/src/mfast/coder/common/codec_helper.h
index 74207f0..0499642 100644
--- a/src/mfast/coder/common/codec_helper.h
+++ b/src/mfast/coder/common/codec_helper.h
@@ -7,10 +7,20 @@
 
 #include "../../string_ref.h"
 #include "../../exceptions.h"
+#include <algorithm>
 #include <vector>
 
 namespace mfast {
 namespace detail {
+// Returns the size a sequence should be resized to before decoding its
+// (index+1)-th element. The length of a sequence read from the stream cannot be
+// trusted; thus, the memory allocated is bounded by the amount of input left
+// and the number of elements which have been decoded.
+inline std::size_t bounded_sequence_size(std::size_t length, std::size_t index,
+                                         std::size_t bytes_left) {
+  return (std::min)(length, 2 * index + bytes_left + 1);
+}
+
 class codec_helper {
 public:
   template <typename T> value_storage &previous_value_of(const T &mref) const {
diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index 68c2c95..94c3e03 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -8,6 +8,7 @@
 #include "../../field_visitor.h"
 #include "../../sequence_ref.h"
 #include "../../composite_type.h"
+#include "../common/codec_helper.h"
 #include "../common/exceptions.h"
 #include "../common/debug_stream.h"
 #include "../common/template_repo.h"
@@ -128,6 +129,10 @@ void fast_decoder_impl::visit(const int_vector_mref<IntType> &mref) {
     return;
   }
 
+  // each element occupies at least one byte in the stream
+  if (length > strm_.in_avail())
+    BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
+
   mref.resize(length);
   for (uint32_t i = 0; i < length; ++i) {
     strm_.decode(mref[i], false);
@@ -180,15 +185,19 @@ inline void fast_decoder_impl::visit(const sequence_mref &mref, int) {
 
   if (length_mref.present()) {
     debug_ << "  decoded sequence length " << length_mref.value() << "\n";
-    mref.resize(length_mref.value());
   } else {
     debug_ << "  " << mref.name() << "is absent\n";
     mref.omit();
   }
-  if (length_mref.present() && length_mref.value() > 0) {
-    int i = 0;
-    for (auto &&elem : mref) {
-      this->visit(elem, i++);
+  if (length_mref.present()) {
+    const std::size_t len = length_mref.value();
+    std::size_t i = 0;
+    mref.resize(detail::bounded_sequence_size(len, i, strm_.in_avail()));
+    while (i < len) {
+      if (i == mref.size())
+        mref.resize(detail::bounded_sequence_size(len, i, strm_.in_avail()));
+      this->visit(mref[i], static_cast<int>(i));
+      ++i;
     }
   }
 }
diff --git a/src/mfast/coder/decoder/fast_istream.h b/src/mfast/coder/decoder/fast_istream.h
index debece6..82d257b 100644
--- a/src/mfast/coder/decoder/fast_istream.h
+++ b/src/mfast/coder/decoder/fast_istream.h
@@ -23,6 +23,7 @@ public:
   void reset(fast_istreambuf *sb);
 
   bool eof() const { return buf_->in_avail() == 0; }
+  std::size_t in_avail() const { return buf_->in_avail(); }
   bool operator!() const { return buf_->in_avail() == 0; }
   /**
    * Decode an integer and store the result in @a result.
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index d285121..ccb9f90 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -220,6 +220,10 @@ inline void fast_decoder_base::decode_field(const T &ext_ref,
     return;
   }
 
+  // each element occupies at least one byte in the stream
+  if (length > this->strm_.in_avail())
+    BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
+
   mref.resize(length);
   for (uint32_t i = 0; i < length; ++i) {
     this->strm_.decode(mref[i], false_type());
@@ -251,10 +255,13 @@ inline void fast_decoder_base::decode_field(const T &ext_ref,
   this->visit(length);
 
   if (length.present()) {
-    std::size_t len = length.get().value();
-    ext_ref.set().resize(len);
+    const std::size_t len = length.get().value();
+    auto mref = ext_ref.set();
+    mref.resize(detail::bounded_sequence_size(len, 0, this->strm_.in_avail()));
 
     for (std::size_t i = 0; i < len; ++i) {
+      if (i == mref.size())
+        mref.resize(detail::bounded_sequence_size(len, i, this->strm_.in_avail()));
       this->visit(ext_ref[i]);
     }
   } else {
-- 
2.43.0


From 83a056977b3905daa9dee4bf5b9894fe63f65f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 008/119] fix: pass the old size in bytes and bound the
 capacity when growing vectors and sequences

---
 src/mfast/sequence_ref.cpp |  8 ++++++++
 src/mfast/vector_ref.h     | 23 ++++++++++++++++++-----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/mfast/sequence_ref.cpp b/src/mfast/sequence_ref.cpp
index 7551c3a..4242da2 100644
--- a/src/mfast/sequence_ref.cpp
+++ b/src/mfast/sequence_ref.cpp
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #include "mfast/sequence_ref.h"
 #include "mfast/allocator.h"
+#include <new>
 
 namespace mfast {
 namespace detail {
@@ -21,9 +22,16 @@ void sequence_mref_helper::reserve(
 
   if (reserve_size > storage->of_array.capacity_in_bytes_) {
 
+    // the capacity has to fit in the 31 bits of capacity_in_bytes_
+    const std::size_t max_capacity = 0x7FFFFFFF;
+    if (n > max_capacity / element_size)
+      throw std::bad_alloc();
+
     std::size_t new_capacity =
         alloc->reallocate(storage->of_array.content_,
                           storage->of_array.capacity_in_bytes_, reserve_size);
+    if (new_capacity > max_capacity)
+      new_capacity = max_capacity;
 
     std::size_t old_num_elements =
         storage->of_array.capacity_in_bytes_ / element_size;
diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index c453bc4..2130256 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -6,7 +6,9 @@
 #pragma once
 #include <cassert>
 #include <iterator>
+#include <algorithm>
 #include <cstring>
+#include <new>
 #include <vector>
 #include "field_ref.h"
 #include "allocator.h"
@@ -429,16 +431,27 @@ void vector_mref_base<T>::reserve(
     typename vector_mref_base<T>::size_t n) const {
   if (capacity() > n)
     return;
+  // the capacity has to fit in the 31 bits of capacity_in_bytes_
+  const std::size_t max_capacity = 0x7FFFFFFF;
+  if (n >= max_capacity / sizeof(value_type))
+    throw std::bad_alloc();
   std::size_t reserve_size = (n + 1) * sizeof(value_type);
 
   if (capacity() > 0) {
-    this->storage()->of_array.capacity_in_bytes_ = this->alloc_->reallocate(
-        this->storage()->of_array.content_, capacity(), reserve_size);
+    this->storage()->of_array.capacity_in_bytes_ =
+        static_cast<uint32_t>((std::min)(
+            max_capacity,
+            this->alloc_->reallocate(
+                this->storage()->of_array.content_,
+                this->storage()->of_array.capacity_in_bytes_, reserve_size)));
   } else {
     void *old_addr = this->storage()->of_array.content_;
-    this->storage()->of_array.content_ = nullptr;
-    this->storage()->of_array.capacity_in_bytes_ = this->alloc_->reallocate(
-        this->storage()->of_array.content_, 0, reserve_size);
+    void *new_addr = nullptr;
+    std::size_t new_capacity =
+        this->alloc_->reallocate(new_addr, 0, reserve_size);
+    this->storage()->of_array.content_ = new_addr;
+    this->storage()->of_array.capacity_in_bytes_ =
+        static_cast<uint32_t>((std::min)(max_capacity, new_capacity));
     // Copy the old content to the new buffer.
     // In the case when the this->capacity == 0 && this->size() > 0,
     // reserve() could be invoked with n < this->size(). Thus, we can
-- 
2.43.0


From 95fe6b57e85f1afb55fef82a4ab35df87547044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 009/119] fix: keep the original block valid when
 malloc_allocator fails to reallocate

---
 src/mfast/malloc_allocator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mfast/malloc_allocator.cpp b/src/mfast/malloc_allocator.cpp
index 60c09ef..fdb2219 100644
--- a/src/mfast/malloc_allocator.cpp
+++ b/src/mfast/malloc_allocator.cpp
@@ -26,12 +26,12 @@ std::size_t malloc_allocator::reallocate(void *&pointer,
                                          std::size_t new_size) {
   // make the new_size at least 64 bytes
   new_size = std::max<std::size_t>(2 * new_size, 64) & (~63);
-  void *old_ptr = pointer;
-  pointer = std::realloc(pointer, new_size);
-  if (pointer == nullptr) {
-    std::free(old_ptr);
+  void *new_pointer = std::realloc(pointer, new_size);
+  // the original block remains valid and is still owned by the caller when the
+  // reallocation failed.
+  if (new_pointer == nullptr)
     throw std::bad_alloc();
-  }
+  pointer = new_pointer;
   return new_size;
 }
 
-- 
2.43.0


From fe5093770b46b708500bf3da192e2d3dce9c5516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 010/119] fix: do not pass a null pointer to memcpy in
 arena_allocator::reallocate

---
 src/mfast/arena_allocator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/arena_allocator.cpp b/src/mfast/arena_allocator.cpp
index 6dac8f6..cf6e3b5 100644
--- a/src/mfast/arena_allocator.cpp
+++ b/src/mfast/arena_allocator.cpp
@@ -85,7 +85,8 @@ std::size_t arena_allocator::reallocate(void *&pointer, std::size_t old_size,
   new_size = align(static_cast<std::size_t>(new_size) * 2, 64);
   void *old_pointer = pointer;
   pointer = this->allocate(new_size);
-  std::memcpy(pointer, old_pointer, old_size);
+  if (old_size)
+    std::memcpy(pointer, old_pointer, old_size);
   return new_size;
 }
 
-- 
2.43.0


From d664983ebd45ecfc896e752d95592893806f7c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:41 +0000
Subject: [PATCH 011/119] fix: insert into and replace parts of vectors by
 elements rather than bytes

---
 src/mfast/vector_ref.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 2130256..a96d9f5 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -229,7 +229,7 @@ public:
 
   void reserve(size_t n) const;
 
-  void push_back(char c) const { insert(end(), c); }
+  void push_back(value_type c) const { insert(end(), c); }
   void pop_back() const {
     if (this->size())
       this->storage()->of_array.len_ -= 1;
@@ -476,17 +476,17 @@ vector_mref_base<T>::shift(typename vector_mref_base<T>::iterator position,
   assert(position >= begin() && position <= end());
   std::size_t offset = position - begin();
 
-  if (capacity() < this->size() + n)
-    reserve(this->size() + n);
+  const size_t old_size = this->size();
+
+  reserve(old_size + n);
 
   iterator src = begin() + offset;
 
-  if (offset < this->size()) {
-    std::memmove(src + (n * sizeof(value_type)), src,
-                 (this->size() + 1 - offset) * sizeof(value_type));
+  if (offset < old_size) {
+    std::memmove(src + n, src, (old_size - offset) * sizeof(value_type));
   }
 
-  this->storage()->of_array.len_ += static_cast<uint32_t>(n);
+  this->storage()->array_length(static_cast<uint32_t>(old_size + n));
   return src;
 }
 
@@ -503,10 +503,11 @@ void vector_mref_base<T>::replace(size_t pos, size_t count,
       this->shift(data() + pos, diff);
     } else {
       std::memmove(data() + pos + count2, data() + pos + count,
-                   -diff * sizeof(value_type));
+                   (this->size() - pos - count) * sizeof(value_type));
       this->resize(this->size() + diff);
     }
   }
-  std::memcpy(data() + pos, addr, count2 * sizeof(value_type));
+  if (count2 > 0)
+    std::memcpy(data() + pos, addr, count2 * sizeof(value_type));
 }
 }
-- 
2.43.0


From efe9a5f4365f2c276147e0cb57e30b470fdccb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:41 +0000
Subject: [PATCH 012/119] fix: initialize every element added by resizing a
 vector

---
 src/mfast/coder/common/codec_helper.h |  5 +++--
 src/mfast/vector_ref.h                | 13 +++++--------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/mfast/coder/common/codec_helper.h b/src/mfast/coder/common/codec_helper.h
index 0499642..bb01276 100644
--- a/src/mfast/coder/common/codec_helper.h
+++ b/src/mfast/coder/common/codec_helper.h
@@ -136,10 +136,11 @@ public:
     }
 
     // The base value may share the buffer of mref, in which case the content
-    // must be saved before the buffer is reallocated.
+    // must be saved before the buffer is reallocated or extended.
     std::vector<typename STRING_MREF::value_type> base_copy;
     if (base_len > 0 && base_value.of_array.content_ == mref.data() &&
-        base_len + delta_len >= mref.capacity()) {
+        (base_len + delta_len >= mref.capacity() ||
+         base_value.array_length() > mref.size())) {
       base_copy.assign(base_str, base_str + base_len);
       base_str = base_copy.data();
     }
diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index a96d9f5..4515a73 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -215,15 +215,12 @@ public:
     return data()[index];
   }
 
-  void resize(size_t n, char c = 0) const {
+  void resize(size_t n, value_type c = 0) const {
     assert(n < static_cast<size_t>((std::numeric_limits<int32_t>::max)()));
-    size_t len = n + 1;
-    if (len > this->capacity()) {
-      reserve(n);
-      std::make_signed<std::size_t>::type bytes_to_set = n - this->size();
-      if (bytes_to_set > 0)
-        std::memset(end(), c, static_cast<size_t>(bytes_to_set));
-    }
+    const size_t old_size = this->size();
+    reserve(n);
+    if (n > old_size)
+      std::fill(begin() + old_size, begin() + n, c);
     this->storage()->array_length(static_cast<uint32_t>(n));
   }
 
-- 
2.43.0


From f167ce77f5072f18f340294fb347fd335709807b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:41 +0000
Subject: [PATCH 013/119] fix: compare all the bytes of integer vectors

---
 src/mfast/vector_ref.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 4515a73..a813ace 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -111,9 +111,9 @@ bool operator==(const vector_cref_base<T, InstructionType> &lhs,
                 const vector_cref_base<T, InstructionType> &rhs) {
   if (lhs.size() != rhs.size())
     return false;
-  if (lhs.data() == rhs.data())
+  if (lhs.size() == 0 || lhs.data() == rhs.data())
     return true;
-  return std::memcmp(lhs.data(), rhs.data(), lhs.size()) == 0;
+  return std::memcmp(lhs.data(), rhs.data(), lhs.size() * sizeof(T)) == 0;
 }
 
 template <typename T, typename InstructionType>
-- 
2.43.0


From 20cb1ce11bc898688773c8d0d535a3c246508975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:41 +0000
Subject: [PATCH 014/119] fix: copy vector values with their element type

---
 src/mfast/vector_ref.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index a813ace..a8be749 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -293,7 +293,8 @@ protected:
 
   friend class mfast::detail::codec_helper;
   void copy_from(const value_storage &v) const {
-    const char *ptr = static_cast<const char *>(v.of_array.content_);
+    const value_type *ptr =
+        static_cast<const value_type *>(v.of_array.content_);
     this->assign(ptr, ptr + v.array_length());
   }
 
-- 
2.43.0


From 5a3f7da89a4c4fb0b3687f39661974164d978a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:41 +0000
Subject: [PATCH 015/119] fix: make operator> of strings a strict ordering

---
 src/mfast/string_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/string_ref.h b/src/mfast/string_ref.h
index 87d01fa..ec203dd 100644
--- a/src/mfast/string_ref.h
+++ b/src/mfast/string_ref.h
@@ -48,7 +48,7 @@ public:
   }
   template <typename OtherIntruction>
   bool operator>(const string_cref_base<OtherIntruction> &other) const {
-    return compare(other) >= 0;
+    return compare(other) > 0;
   }
 
   bool operator>=(const boost::string_ref &other) const {
-- 
2.43.0


From c9e53eae132e2846d23fad0a1fc5477c6ab3f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:41 +0000
Subject: [PATCH 016/119] fix: leave the buffer of an absent string untouched
 in c_str()

---
 src/mfast/string_ref.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfast/string_ref.h b/src/mfast/string_ref.h
index ec203dd..122eb0b 100644
--- a/src/mfast/string_ref.h
+++ b/src/mfast/string_ref.h
@@ -84,6 +84,8 @@ public:
   }
 
   const char *c_str() const {
+    if (this->absent())
+      return "";
     if (this->storage()->of_array.capacity_in_bytes_ > 0) {
       const_cast<char &>(*this->end()) = '\0';
       return this->data();
-- 
2.43.0


From d4bbf45514a581b6be025336e6fc61a9788589dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:41 +0000
Subject: [PATCH 017/119] fix: crend() of a sequence is the end of the reversed
 sequence

---
 src/mfast/sequence_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/sequence_ref.h b/src/mfast/sequence_ref.h
index 384abac..3078769 100644
--- a/src/mfast/sequence_ref.h
+++ b/src/mfast/sequence_ref.h
@@ -250,7 +250,7 @@ public:
     return boost::make_reverse_iterator(this->begin());
   }
   const_reverse_iterator crbegin() const { return this->rbegin(); }
-  const_reverse_iterator crend() const { return this->rbegin(); }
+  const_reverse_iterator crend() const { return this->rend(); }
   /**
    * @returns true if the sequence contains only one sub-field and the field is
    *unnamed.
-- 
2.43.0


From 7e3dd529ff9b7f4268c5b89353ef4a6a75299ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:41 +0000
Subject: [PATCH 018/119] fix: make assignment from another sequence compile

---
 src/mfast/sequence_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/sequence_ref.h b/src/mfast/sequence_ref.h
index 3078769..5fba914 100644
--- a/src/mfast/sequence_ref.h
+++ b/src/mfast/sequence_ref.h
@@ -456,6 +456,6 @@ make_sequence_mref<ElementType, SequenceTrait, SequenceInstructionType>::as(
   this->instruction()->copy_construct_value(*src.storage_, tmp_storage,
                                             this->alloc_);
   std::swap(tmp_storage, const_cast<value_storage &>(*this->storage_));
-  this->instruction()->destruct_value(tmp_storage);
+  this->instruction()->destruct_value(tmp_storage, this->alloc_);
 }
 }
-- 
2.43.0


From 0c7b6391b96b3c9bfd6123d5d211fff4848bb868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:13 +0000
Subject: [PATCH 019/119] fix: bound the memory allocated for the initial
 elements of a sequence

---
 .../instructions/sequence_instruction.cpp     | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/mfast/instructions/sequence_instruction.cpp b/src/mfast/instructions/sequence_instruction.cpp
index afda1d3..ca7ef74 100644
--- a/src/mfast/instructions/sequence_instruction.cpp
+++ b/src/mfast/instructions/sequence_instruction.cpp
@@ -5,6 +5,8 @@
 // See the file license.txt for licensing information.
 
 #include "sequence_instruction.h"
+#include <algorithm>
+#include <new>
 
 namespace mfast {
 
@@ -67,6 +69,19 @@ sequence_field_instruction::sequence_field_instruction(
   }
 }
 
+namespace {
+// Allocates the memory for n elements and returns the capacity in bytes, which
+// has to fit in the 31 bits of of_array.capacity_in_bytes_.
+uint32_t allocate_elements(void *&content, std::size_t n,
+                           std::size_t element_size, allocator *alloc) {
+  const std::size_t max_capacity = 0x7FFFFFFF;
+  if (element_size > 0 && n > max_capacity / element_size)
+    throw std::bad_alloc();
+  const std::size_t capacity = alloc->reallocate(content, 0, n * element_size);
+  return static_cast<uint32_t>((std::min)(capacity, max_capacity));
+}
+}
+
 void sequence_field_instruction::construct_sequence_elements(
     value_storage &storage, std::size_t start, std::size_t length,
     allocator *alloc) const {
@@ -95,10 +110,9 @@ void sequence_field_instruction::construct_value(value_storage &storage,
   storage.of_array.len_ = optional() ? 0 : initial_length + 1;
   if (sequence_length_instruction_ && initial_length > 0) {
     std::size_t element_size = this->group_content_byte_count();
-    std::size_t reserve_size = initial_length * element_size;
     storage.of_array.content_ = nullptr;
-    storage.of_array.capacity_in_bytes_ =
-        alloc->reallocate(storage.of_array.content_, 0, reserve_size);
+    storage.of_array.capacity_in_bytes_ = allocate_elements(
+        storage.of_array.content_, initial_length, element_size, alloc);
     construct_sequence_elements(
         storage, 0, storage.of_array.capacity_in_bytes_ / element_size, alloc);
   } else {
@@ -137,11 +151,10 @@ void sequence_field_instruction::copy_construct_value(const value_storage &src,
 
   if (size) {
     std::size_t element_size = this->group_content_byte_count();
-    std::size_t reserve_size = size * element_size;
 
     dest.of_array.content_ = nullptr;
-    dest.of_array.capacity_in_bytes_ =
-        alloc->reallocate(dest.of_array.content_, 0, reserve_size);
+    dest.of_array.capacity_in_bytes_ = allocate_elements(
+        dest.of_array.content_, size, element_size, alloc);
 
     const value_storage *src_elements =
         static_cast<const value_storage *>(src.of_array.content_);
-- 
2.43.0


From 55b1c858705599010f155dc5940a8c8a3f87f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 020/119] fix: keep the sign and report overflow when reading
 decimals from text

---
 src/mfast/value_storage.cpp | 92 +++++++++++++++++++++++++++----------
 1 file changed, 67 insertions(+), 25 deletions(-)

diff --git a/src/mfast/value_storage.cpp b/src/mfast/value_storage.cpp
index a13f00f..f81edbf 100644
--- a/src/mfast/value_storage.cpp
+++ b/src/mfast/value_storage.cpp
@@ -8,50 +8,91 @@
 #include <algorithm>
 #include <cstdio>
 #include <iterator>
+#include <limits>
 
 namespace mfast {
 std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
-
-  int64_t mantissa;
-  int16_t exponent = 0;
-  if (!(strm >> std::skipws >> mantissa)) {
+  std::istream::sentry ok(strm >> std::skipws);
+  if (!ok)
     return strm;
-  }
-  // BOOST_THROW_EXCEPTION(json_decode_error(strm, "Expect decimal"));
 
   std::streambuf *sbuf = strm.rdbuf();
+  int c = sbuf->sgetc();
+
+  const bool negative = (c == '-');
+  if (c == '-' || c == '+')
+    c = sbuf->snextc();
+
+  const uint64_t limit =
+      static_cast<uint64_t>((std::numeric_limits<int64_t>::max)()) + negative;
+  uint64_t mantissa = 0;
+  int64_t exponent = 0;
+  // Number of zeros following the last nonzero digit. They are not multiplied
+  // into the mantissa until they are known to be required.
+  int64_t zeros = 0;
+  bool has_digits = false;
+  bool in_fraction = false;
+  bool overflow = false;
+
+  for (; c != EOF; c = sbuf->snextc()) {
+    if (c == '.' && has_digits && !in_fraction) {
+      in_fraction = true;
+      continue;
+    }
 
-  int c = sbuf->sbumpc();
-  if (c == '.') {
-    bool negative = false;
+    if (c < '0' || c > '9')
+      break;
 
-    if (mantissa < 0) {
-      negative = true;
-      mantissa = -mantissa;
-    }
+    has_digits = true;
+    if (in_fraction)
+      --exponent;
 
-    while ((c = sbuf->sbumpc()) != EOF && isdigit(c)) {
-      mantissa *= 10;
-      mantissa += c - '0';
-      exponent -= 1;
+    if (c == '0') {
+      ++zeros;
+      continue;
     }
 
-    if (negative) {
-      mantissa = -mantissa;
+    const unsigned digit = c - '0';
+    if (mantissa != 0) {
+      for (; zeros > 0 && !overflow; --zeros) {
+        overflow = mantissa > limit / 10;
+        mantissa *= 10;
+      }
+      overflow = overflow || mantissa > (limit - digit) / 10;
     }
+    mantissa = mantissa * 10 + digit;
+    zeros = 0;
   }
 
-  if (c == 'e' || c == 'E') {
+  if (mantissa == 0) {
+    zeros = 0;
+  } else {
+    for (; zeros > 0 && mantissa <= limit / 10; --zeros)
+      mantissa *= 10;
+  }
+  exponent += zeros;
+
+  if (has_digits && (c == 'e' || c == 'E')) {
+    sbuf->sbumpc();
     int16_t exp;
     if (!(strm >> exp)) {
       return strm;
     }
     exponent += exp;
-  } else if (c != EOF) {
-    strm.putback(c);
+  } else if (c == EOF) {
+    strm.setstate(std::ios_base::eofbit);
+  }
+
+  if (!has_digits || overflow ||
+      exponent > (std::numeric_limits<int16_t>::max)() ||
+      exponent < (std::numeric_limits<int16_t>::min)()) {
+    strm.setstate(std::ios_base::failbit);
+    return strm;
   }
-  storage.mantissa(mantissa);
-  storage.exponent(exponent);
+
+  storage.mantissa(
+      static_cast<int64_t>(negative ? uint64_t(0) - mantissa : mantissa));
+  storage.exponent(static_cast<int16_t>(exponent));
   storage.storage_.present(1);
   return strm;
 }
@@ -86,7 +127,8 @@ std::ostream &operator<<(std::ostream &os,
 
   if (exponent >= 0) {
     os << mantissa;
-    std::fill_n(std::ostream_iterator<char>(os), exponent, '0');
+    if (mantissa != 0)
+      std::fill_n(std::ostream_iterator<char>(os), exponent, '0');
   } else if (exponent < 0) {
     char buf[128];
 
-- 
2.43.0


From 634953a40ba81380553993836b2dfef095b3978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 021/119] fix: keep the exponent when the mantissa takes an
 initial or previous value

---
 src/mfast/int_ref.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mfast/int_ref.h b/src/mfast/int_ref.h
index b3ed8e5..1bae130 100644
--- a/src/mfast/int_ref.h
+++ b/src/mfast/int_ref.h
@@ -98,7 +98,7 @@ public:
   }
 
   void to_initial_value() const {
-    *this->storage() = this->instruction()->initial_value();
+    copy_from(this->instruction()->initial_value());
   }
   T value() const { return this->storage()->template get<T>(); }
 
@@ -117,7 +117,12 @@ protected:
 
   friend class mfast::detail::codec_helper;
 
-  void copy_from(value_storage v) const { *this->storage() = v; }
+  // The storage of a mantissa is shared with its exponent, only the content and
+  // the presence may be overwritten.
+  void copy_from(value_storage v) const {
+    this->storage()->present(!v.is_empty());
+    this->storage()->of_uint64.content_ = v.of_uint64.content_;
+  }
 };
 
 typedef int_mref<int32_t> int32_mref;
-- 
2.43.0


From 1230c91513a1f14f480eebc19d76074df71f261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 022/119] fix: accept decimal initial values with a fraction
 and mark them present

---
 src/mfast/xml_parser/field_op.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/mfast/xml_parser/field_op.cpp b/src/mfast/xml_parser/field_op.cpp
index 87335f1..8936fcc 100644
--- a/src/mfast/xml_parser/field_op.cpp
+++ b/src/mfast/xml_parser/field_op.cpp
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #include <cstddef>
 #include <set>
+#include <sstream>
 #include <boost/assign.hpp>
 #include "field_op.h"
 #include "../exceptions.h"
@@ -69,9 +70,18 @@ field_op::field_op(const decimal_field_instruction *inst,
           get_optional_attr(*field_op_element, "value", nullptr);
 
       if (init_value_str) {
-        if (strcmp(element->Name(), "exponent") != 0)
-          initial_value_.set(boost::lexical_cast<int64_t>(init_value_str));
-        else {
+        if (strcmp(element->Name(), "exponent") != 0) {
+          std::istringstream strm(init_value_str);
+          decimal_value_storage value;
+          if (!(strm >> value) || strm.peek() != EOF || value.exponent() > 63 ||
+              value.exponent() < -63) {
+            BOOST_THROW_EXCEPTION(
+                fast_dynamic_error("D11")
+                << reason_info(std::string("Invalid decimal initial value: ") +
+                               init_value_str));
+          }
+          initial_value_ = value.storage_;
+        } else {
           short exp = 128;
           try {
             exp = boost::lexical_cast<short>(init_value_str);
-- 
2.43.0


From 464da1f8ae56c1c8d6d4cb042253749ae4437b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:07 +0000
Subject: [PATCH 023/119] fix: decode nested messages without a template
 identifier, restore the state on errors and keep their strings out of the
 dictionary

---
 src/mfast/coder/common/template_repo.h        | 17 ++++++
 src/mfast/coder/decoder/fast_decoder.cpp      | 56 ++++++++++++++++--
 .../coder/decoder_v2/fast_decoder_core.h      | 58 ++++++++++++++++---
 3 files changed, 117 insertions(+), 14 deletions(-)

diff --git a/src/mfast/coder/common/template_repo.h b/src/mfast/coder/common/template_repo.h
index cc8c510..897af3e 100644
--- a/src/mfast/coder/common/template_repo.h
+++ b/src/mfast/coder/common/template_repo.h
@@ -7,8 +7,15 @@
 
 #include "dictionary_builder.h"
 #include <map>
+#include <string>
 
 namespace mfast {
+namespace coder {
+// The maximum number of levels dynamic template references can be nested, so
+// that the stack cannot be exhausted by the content of a stream.
+static const unsigned max_nesting_depth = 128;
+}
+
 class template_repo_base {
 public:
   template_repo_base(mfast::allocator *dictionary_alloc)
@@ -31,6 +38,15 @@ public:
     }
   }
 
+  /// Duplicate the content of a string dictionary entry so that it no longer
+  /// refers to the memory owned by a message field.
+  void detach_entry(value_storage &entry) {
+    std::string &copy = detached_entries_[&entry];
+    copy.assign(static_cast<const char *>(entry.of_array.content_),
+                entry.array_length());
+    entry.of_array.content_ = &copy[0];
+  }
+
   virtual template_instruction *get_template(uint32_t id) = 0;
 
 private:
@@ -51,6 +67,7 @@ protected:
   typedef std::vector<value_storage *> value_entries_t;
   value_entries_t reset_entries_;
   value_entries_t vector_entries_; // for string and byteVector
+  std::map<value_storage *, std::string> detached_entries_;
   arena_allocator instruction_alloc_;
   mfast::allocator *dictionary_alloc_;
 };
diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index 94c3e03..a2d0a25 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -54,6 +54,22 @@ struct fast_decoder_impl {
 
   template <typename SimpleMRef> void visit(const SimpleMRef &mref);
 
+  // The strings of a nested message are released when the nested message is
+  // bound to another template, thus the dictionary cannot refer to them.
+  template <typename SimpleMRef>
+  void detach_previous_value(const SimpleMRef &, number_type_tag) {}
+
+  template <typename StringMRef>
+  void detach_previous_value(const StringMRef &mref, string_type_tag) {
+    if (nesting_depth_ > 0 && mref.size() > 0) {
+      value_storage &previous = const_cast<typename StringMRef::instruction_type *>(
+                                    mref.instruction())
+                                    ->prev_value();
+      if (previous.of_array.content_ == mref.data())
+        repo_.detach_entry(previous);
+    }
+  }
+
   template <typename IntType> void visit(const int_vector_mref<IntType> &mref);
 
   void visit(const group_mref &mref, int);
@@ -91,11 +107,36 @@ struct fast_decoder_impl {
   debug_stream debug_;
   decoder_presence_map *current_;
   std::ostream *warning_log_;
+  unsigned nesting_depth_;
+
+  // Restores the state of the enclosing segment when the decoding of a nested
+  // message ends, even when it ends with an error.
+  struct nested_message_saver {
+    fast_decoder_impl &impl_;
+    message_type *active_message_;
+    decoder_presence_map *current_;
+
+    nested_message_saver(fast_decoder_impl &impl)
+        : impl_(impl), active_message_(impl.active_message_),
+          current_(impl.current_) {
+      if (impl_.nesting_depth_ >= coder::max_nesting_depth)
+        BOOST_THROW_EXCEPTION(
+            fast_dynamic_error("Nested messages are too deep"));
+      ++impl_.nesting_depth_;
+    }
+
+    ~nested_message_saver() {
+      impl_.active_message_ = active_message_;
+      impl_.current_ = current_;
+      --impl_.nesting_depth_;
+    }
+  };
 };
 
 inline fast_decoder_impl::fast_decoder_impl(mfast::allocator *alloc)
     : repo_(info_entry_converter(alloc)), message_alloc_(alloc), strm_(nullptr),
-      warning_log_(nullptr) {}
+      active_message_(nullptr), force_reset_(false), current_(nullptr),
+      warning_log_(nullptr), nesting_depth_(0) {}
 
 fast_decoder_impl::~fast_decoder_impl() {}
 
@@ -112,6 +153,7 @@ inline void fast_decoder_impl::visit(const SimpleMRef &mref) {
   const decoder_field_operator *field_operator =
       decoder_operators[mref.instruction()->field_operator()];
   field_operator->decode(mref, strm_, current_pmap());
+  detach_previous_value(mref, typename SimpleMRef::type_category());
 
   if (mref.present())
     debug_ << "   decoded " << mref.name() << " = " << mref << "\n";
@@ -221,8 +263,8 @@ inline void fast_decoder_impl::visit(const sequence_element_mref &mref,
 }
 
 inline void fast_decoder_impl::visit(const nested_message_mref &mref, int) {
+  nested_message_saver saver(*this);
   pmap_state state;
-  message_type *saved_active_message = active_message_;
 
   debug_ << "decoding dynamic templateRef ...\n";
 
@@ -246,15 +288,17 @@ inline void fast_decoder_impl::visit(const nested_message_mref &mref, int) {
       BOOST_THROW_EXCEPTION(fast_dynamic_error("D9")
                             << template_id_info(template_id));
     }
-    mref.set_target_instruction(active_message_->instruction(), false);
+  } else if (active_message_ == nullptr) {
+    BOOST_THROW_EXCEPTION(fast_dynamic_error("D9"));
   }
 
+  // When the template identifier is not present, the template of the enclosing
+  // message is used.
+  mref.set_target_instruction(active_message_->instruction());
+
   for (auto &&field : mref.target()) {
     apply_mutator(*this, field);
   }
-
-  restore_pmap(state);
-  active_message_ = saved_active_message;
 }
 
 message_type *fast_decoder_impl::decode_segment(fast_istreambuf &sb) {
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index ccb9f90..46a2360 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -73,8 +73,28 @@ struct MFAST_CODER_EXPORT fast_decoder_base : detail::codec_helper {
   template <typename T>
   void decode_field(const T &ext_ref, tail_operator_tag, string_type_tag);
 
+  template <typename T, typename TypeCategory>
+  void detach_previous_value(const T &, TypeCategory) {}
+
+  // The dictionary refers to the strings of the decoded message, unless the
+  // decoded messages are modifiable or the strings belong to a nested message.
+  template <typename T>
+  void detach_previous_value(const T &ext_ref, string_type_tag) {
+    if (dictionary_ == nullptr || !(duplicate_values_ || nesting_depth_ > 0))
+      return;
+    auto ref = ext_ref.get();
+    if (ref.size() > 0) {
+      value_storage &previous = previous_value_of(ref);
+      if (previous.of_array.content_ == ref.data())
+        dictionary_->detach_entry(previous);
+    }
+  }
+
   fast_istream strm_;
   allocator *message_alloc_;
+  template_repo_base *dictionary_;
+  bool duplicate_values_;
+  unsigned nesting_depth_;
   bool force_reset_;
   decoder_presence_map *current_;
 };
@@ -186,12 +206,14 @@ struct fast_decoder_core : public fast_decoder_base,
 };
 
 inline fast_decoder_base::fast_decoder_base(allocator *alloc)
-    : strm_(nullptr), message_alloc_(alloc), force_reset_(false),
+    : strm_(nullptr), message_alloc_(alloc), dictionary_(nullptr),
+      duplicate_values_(false), nesting_depth_(0), force_reset_(false),
       current_(nullptr) {}
 
 template <typename T> inline void fast_decoder_base::visit(const T &ext_ref) {
   typedef typename T::type_category type_category;
   this->decode_field(ext_ref, type_category());
+  this->detach_previous_value(ext_ref, type_category());
 }
 
 template <typename T, typename TypeCategory>
@@ -620,12 +642,34 @@ template <unsigned NumTokens>
 inline fast_decoder_core<NumTokens>::fast_decoder_core(allocator *alloc)
     : fast_decoder_base(alloc),
       repo_(info_entry_converter(alloc), NumTokens == 0 ? nullptr : alloc),
-      active_message_info_(nullptr) {}
+      active_message_info_(nullptr) {
+  dictionary_ = &repo_;
+  duplicate_values_ = NumTokens > 0;
+}
 
 template <unsigned NumTokens>
 void fast_decoder_core<NumTokens>::visit(const nested_message_mref &mref) {
+  // Restores the state of the enclosing message, even when the decoding of the
+  // nested message ends with an error.
+  struct active_message_saver {
+    fast_decoder_core &core_;
+    info_entry *active_message_info_;
+
+    active_message_saver(fast_decoder_core &core)
+        : core_(core), active_message_info_(core.active_message_info_) {
+      if (core_.nesting_depth_ >= max_nesting_depth)
+        BOOST_THROW_EXCEPTION(
+            fast_dynamic_error("Nested messages are too deep"));
+      ++core_.nesting_depth_;
+    }
+
+    ~active_message_saver() {
+      core_.active_message_info_ = active_message_info_;
+      --core_.nesting_depth_;
+    }
+  } active_saver(*this);
+
   decoder_pmap_saver<true_type> saver(this);
-  info_entry *saved_active_info = this->active_message_info_;
 
   if (this->current_->is_next_bit_set()) {
     uint32_t template_id;
@@ -638,16 +682,14 @@ void fast_decoder_core<NumTokens>::visit(const nested_message_mref &mref) {
       BOOST_THROW_EXCEPTION(
           fast_dynamic_error("D9")
           << template_id_info(template_id)
-          << referenced_by_info(this->active_message().name()));
+          << referenced_by_info(
+                 active_saver.active_message_info_->messages_[0].name()));
     }
   }
 
-  mref.set_target_instruction(this->active_message().instruction(),
-                              false_type());
+  mref.set_target_instruction(this->active_message().instruction());
   message_decode_function_t decode = active_message_info_->decode_fun_;
   (this->*decode)(mref.target());
-
-  this->active_message_info_ = saved_active_info;
 }
 
 template <unsigned NumTokens>
-- 
2.43.0


From c8d47610686d10a7666540766c5f4c3503c8d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:07 +0000
Subject: [PATCH 024/119] fix: the builtin boolean type has no initial value

---
 src/mfast/boolean_ref.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/boolean_ref.cpp b/src/mfast/boolean_ref.cpp
index 7d27912..e08ff48 100644
--- a/src/mfast/boolean_ref.cpp
+++ b/src/mfast/boolean_ref.cpp
@@ -11,7 +11,8 @@ static const char *boolean_elements[] = {"false", "true"};
 
 const boolean::instruction_type *boolean::instruction() {
   static const boolean_cref::instruction_type the_instruction(
-      operator_none, presence_mandatory, 0, "boolean", "", nullptr, 0,
+      operator_none, presence_mandatory, 0, "boolean", "", nullptr,
+      int_value_storage<uint64_t>(),
       boolean_elements, nullptr, 2, nullptr, "mfast");
 
   return &the_instruction;
-- 
2.43.0


From 56de0f2a2d7f646c28c56978c896e780a43fefc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:07 +0000
Subject: [PATCH 025/119] fix: a mantissa without an initial value has none

---
 src/mfast/xml_parser/field_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 369f7e3..166219b 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -196,7 +196,7 @@ void field_builder::visit(const decimal_field_instruction *inst, void *) {
 
     if (base_mantissa_instruction == nullptr) {
       static const mantissa_field_instruction mantissa_prototype(
-          operator_none, nullptr, int_value_storage<int64_t>(0));
+          operator_none, nullptr, int_value_storage<int64_t>());
       base_mantissa_instruction = &mantissa_prototype;
     }
 
-- 
2.43.0


From 99fa6cd308a523d1031e2116afbb2eb33a0a0ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:14 +0000
Subject: [PATCH 026/119] fix: a key without a namespace of its own is in the
 namespace of its field

---
 src/mfast/coder/common/dictionary_builder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index 862560c..9ffaa9a 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -178,7 +178,8 @@ value_storage *dictionary_builder::get_dictionary_storage(
   if (op_context) {
     if (!is_empty_string(op_context->key_))
       key = op_context->key_;
-    ns = op_context->ns_;
+    if (!is_empty_string(op_context->ns_))
+      ns = op_context->ns_;
     dict = op_context->dictionary_;
   }
 
-- 
2.43.0


From aec33ce8dad3ee9c454f6f8f21c8edbadbdaa230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:14 +0000
Subject: [PATCH 027/119] fix: a typeRef without a namespace of its own
 inherits the current one

---
 src/mfast/coder/common/dictionary_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index 9ffaa9a..f934565 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -70,7 +70,7 @@ void dictionary_builder::build_group(const field_instruction *fi,
 
   if (!is_empty_string(src->typeref_name())) {
     const char *type_ns = this->current_ns_;
-    if (!is_empty_string(src->typeref_name())) {
+    if (!is_empty_string(src->typeref_ns())) {
       type_ns = src->typeref_ns();
     }
     current_type_ = qualified_name(type_ns, src->typeref_name());
-- 
2.43.0


From 152e0266af9736e6ff6f8d5db741b57e98692f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:30 +0000
Subject: [PATCH 028/119] fix: name the types of a key used with different
 types correctly

---
 src/mfast/coder/common/dictionary_builder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index f934565..b560c7e 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -34,9 +34,9 @@ public:
       : fast_dynamic_error("D4") {
     const char *field_type_name[] = {
         "int32",       "uInt32",      "int64",        "uInt64",
-        "decimal",     "exponent",    "ascii string", "unicode string",
-        "byteVector",  "int32Vector", "uInt32Vector", "int64Vector",
-        "uInt64Vector"};
+        "decimal",     "exponent",    "templateRef",  "ascii string",
+        "unicode string", "byteVector", "int32Vector", "uInt32Vector",
+        "int64Vector", "uInt64Vector"};
     *this << key_info(keyname) << first_type_info(field_type_name[first_type])
           << second_type_info(field_type_name[second_type]);
   }
-- 
2.43.0


From ffeed17bbddd16c0c4865ac201b02c99d0193718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:18 +0000
Subject: [PATCH 029/119] fix: encode absent strings as NULL and empty byte
 vectors as empty

---
 .../coder/encoder/fast_ostream_inserter.h     | 22 ++++++++++++++-----
 .../coder/encoder_v2/fast_ostream_inserter.h  | 14 +++++++-----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_ostream_inserter.h b/src/mfast/coder/encoder/fast_ostream_inserter.h
index 77d2ce8..a9f6c8c 100644
--- a/src/mfast/coder/encoder/fast_ostream_inserter.h
+++ b/src/mfast/coder/encoder/fast_ostream_inserter.h
@@ -11,6 +11,15 @@
 #include "fast_ostream.h"
 
 namespace mfast {
+// The content of a byte vector, which is null only if the field is absent.
+inline const unsigned char *non_null_begin(const byte_vector_cref &cref,
+                                           bool nullable) {
+  static const unsigned char empty[1] = {0};
+  if (cref.absent() && nullable)
+    return nullptr;
+  return cref.begin() ? cref.begin() : empty;
+}
+
 template <typename U>
 inline fast_ostream &operator<<(fast_ostream &strm, const int_cref<U> &cref) {
   strm.encode(cref.value(), cref.absent(), cref.instruction()->is_nullable());
@@ -24,21 +33,24 @@ inline fast_ostream &operator<<(fast_ostream &strm, const exponent_cref &cref) {
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const ascii_string_cref &cref) {
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), cref.instruction()->is_nullable());
+  const bool nullable = cref.instruction()->is_nullable();
+  strm.encode(cref.absent() && nullable ? nullptr : cref.c_str(),
+              static_cast<uint32_t>(cref.size()), cref.instruction(), nullable);
   return strm;
 }
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const unicode_string_cref &cref) {
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), cref.instruction()->is_nullable());
+  const bool nullable = cref.instruction()->is_nullable();
+  strm.encode(cref.absent() && nullable ? nullptr : cref.c_str(),
+              static_cast<uint32_t>(cref.size()), cref.instruction(), nullable);
   return strm;
 }
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const byte_vector_cref &cref) {
-  strm.encode(cref.begin(), static_cast<uint32_t>(cref.size()),
+  strm.encode(non_null_begin(cref, cref.instruction()->is_nullable()),
+              static_cast<uint32_t>(cref.size()),
               cref.instruction(), cref.instruction()->is_nullable());
   return strm;
 }
diff --git a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
index e99548a..7ef8845 100644
--- a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
+++ b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
@@ -4,6 +4,7 @@
 #include "../../decimal_ref.h"
 #include "../../ext_ref.h"
 #include "../encoder/fast_ostream.h"
+#include "../encoder/fast_ostream_inserter.h"
 
 namespace mfast {
 namespace coder {
@@ -19,8 +20,9 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<ascii_string_cref, Operator, Properties> &ext_ref) {
   ascii_string_cref cref = ext_ref.get();
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), ext_ref.nullable());
+  strm.encode(cref.absent() && ext_ref.nullable() ? nullptr : cref.c_str(),
+              static_cast<uint32_t>(cref.size()), cref.instruction(),
+              ext_ref.nullable());
   return strm;
 }
 
@@ -29,8 +31,9 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<unicode_string_cref, Operator, Properties> &ext_ref) {
   unicode_string_cref cref = ext_ref.get();
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), ext_ref.nullable());
+  strm.encode(cref.absent() && ext_ref.nullable() ? nullptr : cref.c_str(),
+              static_cast<uint32_t>(cref.size()), cref.instruction(),
+              ext_ref.nullable());
   return strm;
 }
 
@@ -39,7 +42,8 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<byte_vector_cref, Operator, Properties> &ext_ref) {
   byte_vector_cref cref = ext_ref.get();
-  strm.encode(cref.begin(), static_cast<uint32_t>(cref.size()),
+  strm.encode(non_null_begin(cref, ext_ref.nullable()),
+              static_cast<uint32_t>(cref.size()),
               cref.instruction(), ext_ref.nullable());
   return strm;
 }
-- 
2.43.0


From d9ec08ff0efc3c6aaef2dc2e529564ff0bba369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:18 +0000
Subject: [PATCH 030/119] fix: an empty string or vector is not the same as an
 absent initial value

---
 src/mfast/vector_ref.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index a8be749..f01e236 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -63,8 +63,11 @@ public:
   size_t size() const { return storage_->array_length(); }
   size_t length() const { return size(); }
   bool is_initial_value() const {
-    return *this == vector_cref_base<T, InstructionType>(
-                        &this->instruction()->initial_value(), instruction());
+    const value_storage &initial = this->instruction()->initial_value();
+    return this->absent() == initial.is_empty() &&
+           (this->absent() ||
+            *this == vector_cref_base<T, InstructionType>(&initial,
+                                                          instruction()));
   }
 
   const_iterator begin() const { return data(); }
-- 
2.43.0


From 651f4160792780eb8c7c64c08870675e1c8ecbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:51 +0000
Subject: [PATCH 031/119] fix: an absent field does not equal its assigned
 previous value when encoding

---
 .../coder/encoder/encoder_field_operator.cpp  | 17 +++++++-----
 .../coder/encoder_v2/fast_encoder_core.h      | 26 +++++++++++++------
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index 2dfbbab..7d4a73b 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #include <iterator>
 #include <algorithm>
+#include <limits>
 #include "../common/codec_helper.h"
 #include "fast_ostream.h"
 #include "encoder_presence_map.h"
@@ -253,24 +254,25 @@ public:
 struct is_same {
   template <typename T>
   bool operator()(const int_cref<T> &v, const value_storage &prev) const {
-    return v.absent() == prev.is_empty() && v.value() == prev.get<T>();
+    return v.present() && !prev.is_empty() && v.value() == prev.get<T>();
   }
 
   bool operator()(const exponent_cref &v, const value_storage &prev) const {
-    return v.absent() == prev.is_empty() &&
+    return v.present() && !prev.is_empty() &&
            v.value() == prev.of_decimal.exponent_;
   }
 
   bool operator()(const decimal_cref &v, const value_storage &prev) const {
-    return v.absent() == prev.is_empty() &&
+    return v.present() && !prev.is_empty() &&
            v.mantissa() == prev.of_decimal.mantissa_ &&
            v.exponent() == prev.of_decimal.exponent_;
   }
 
   template <typename T>
   bool operator()(const vector_cref<T> &v, const value_storage &prev) const {
-    return v.size() == prev.of_array.len_ - 1 &&
-           memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) == 0;
+    return v.present() && !prev.is_empty() && v.size() == prev.array_length() &&
+           std::equal(v.begin(), v.end(),
+                    static_cast<decltype(v.begin())>(prev.of_array.content_));
   }
 };
 
@@ -325,7 +327,10 @@ public:
 struct is_increment {
   template <typename T>
   bool operator()(const T &v, const value_storage &previous) const {
-    return v.value() == previous.get<const typename T::value_type>() + 1;
+    typedef typename T::value_type value_type;
+    const value_type prev = previous.get<const value_type>();
+    return v.present() && prev < (std::numeric_limits<value_type>::max)() &&
+           v.value() == prev + 1;
   }
 };
 
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 5a00730..ec8bd60 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -9,35 +9,46 @@
 #include "../encoder/encoder_presence_map.h"
 #include "../../ext_ref.h"
 #include "fast_ostream_inserter.h"
+#include <algorithm>
+#include <limits>
 #include <tuple>
 
 namespace mfast {
 namespace coder {
 template <typename T>
 inline bool equivalent(const int_cref<T> &v, const value_storage &prev) {
-  return v.absent() == prev.is_empty() && v.value() == prev.get<T>();
+  return v.present() && !prev.is_empty() && v.value() == prev.get<T>();
 }
 
 inline bool equivalent(const exponent_cref &v, const value_storage &prev) {
-  return v.absent() == prev.is_empty() &&
+  return v.present() && !prev.is_empty() &&
          v.value() == prev.of_decimal.exponent_;
 }
 
 inline bool equivalent(const decimal_cref &v, const value_storage &prev) {
-  return v.absent() == prev.is_empty() &&
+  return v.present() && !prev.is_empty() &&
          v.mantissa() == prev.of_decimal.mantissa_ &&
          v.exponent() == prev.of_decimal.exponent_;
 }
 
 inline bool equivalent(const enum_cref &v, const value_storage &prev) {
-  return v.absent() == prev.is_empty() &&
+  return v.present() && !prev.is_empty() &&
          v.value() == prev.of_uint64.content_;
 }
 
 template <typename T>
 inline bool equivalent(const vector_cref<T> &v, const value_storage &prev) {
-  return v.size() == prev.of_array.len_ - 1 &&
-         memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) == 0;
+  return v.present() && !prev.is_empty() && v.size() == prev.array_length() &&
+         std::equal(v.begin(), v.end(),
+                    static_cast<decltype(v.begin())>(prev.of_array.content_));
+}
+
+template <typename T>
+inline bool is_increment_of(const int_cref<T> &v,
+                            const value_storage &previous) {
+  const T prev = previous.get<T>();
+  return v.present() && prev < (std::numeric_limits<T>::max)() &&
+         v.value() == prev + 1;
 }
 
 struct fast_encoder_core;
@@ -446,8 +457,7 @@ void fast_encoder_core::encode_field(const T &ext_ref, increment_operator_tag,
       // modified by another instruction with the same key and that intruction
       // has optional presence.
     }
-  } else if (cref.value() ==
-             previous.get<const typename T::cref_type::value_type>() + 1) {
+  } else if (is_increment_of(cref, previous)) {
     pmap.set_next_bit(false);
     return;
   }
-- 
2.43.0


From f92f61f97be51e5d8de85689b22363b5f35f2653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:28 +0000
Subject: [PATCH 032/119] fix: encode the absent fields of a message according
 to their operators

---
 src/mfast/coder/encoder/fast_encoder.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 71403e2..50d6ea6 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -209,10 +209,13 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
 
   for (auto &&field : message)
   {
-    if (field.present() || field.instruction()->field_operator() == operator_none)
-      apply_accessor(*this, field);
-    else if (!field.present() && field.instruction()->pmap_size())
+    // An absent field with a default value is left to the decoder's default.
+    if (field.absent() &&
+        field.instruction()->field_operator() == operator_default &&
+        field.instruction()->field_type() != field_type_sequence)
       current_pmap().set_next_bit(false);
+    else
+      apply_accessor(*this, field);
   }
 
   pmap.commit();
-- 
2.43.0


From 0103e5bda744b8d3739bb6b30779b8f4f0ea5b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:28 +0000
Subject: [PATCH 033/119] fix: encode the length of an absent sequence
 according to its operator

---
 src/mfast/coder/encoder/fast_encoder.cpp       | 10 ----------
 src/mfast/coder/encoder_v2/fast_encoder_core.h | 12 +-----------
 src/mfast/ext_ref.h                            | 12 ++++--------
 3 files changed, 5 insertions(+), 29 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 50d6ea6..f919505 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -126,16 +126,6 @@ inline void fast_encoder_impl::visit(group_cref cref, int) {
 
 inline void fast_encoder_impl::visit(sequence_cref cref, int) {
 
-  if (cref.instruction()->optional() && !cref.present()) {
-    if (cref.instruction()->length_instruction()->pmap_size() > 0)
-      this->current_->set_next_bit(false);
-    if (cref.instruction()->length_instruction()->field_operator() != operator_constant &&
-        cref.instruction()->length_instruction()->field_operator() != operator_default &&
-        cref.instruction()->length_instruction()->field_operator() != operator_copy)
-      strm_.encode_null();
-    return;
-  }
-
   value_storage storage;
 
   uint32_mref length_mref(nullptr, &storage,
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index ec8bd60..dce0a4c 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -274,21 +274,11 @@ template <typename T>
 inline void fast_encoder_core::encode_field(const T &ext_ref,
                                             sequence_type_tag) {
 
-  if (ext_ref.get().instruction()->optional() && !ext_ref.present()) {
-    if (T::length_type::has_pmap_type::value)
-      this->current_->set_next_bit(false);
-    if(!std::is_same<typename T::length_type::operator_category, constant_operator_tag>::value &&
-       !std::is_same<typename T::length_type::operator_category, copy_operator_tag>::value &&
-       !std::is_same<typename T::length_type::operator_category, default_operator_tag>::value)
-      strm_.encode_null();
-    return;
-  }
-
   value_storage storage;
 
   typename T::length_type length = ext_ref.get_length(storage);
   this->visit(length);
-  std::size_t sz = length.get().value();
+  std::size_t sz = length.present() ? length.get().value() : 0;
   for (std::size_t i = 0; i < sz; ++i) {
     this->visit(ext_ref[i]);
   }
diff --git a/src/mfast/ext_ref.h b/src/mfast/ext_ref.h
index c4ef130..3c606a2 100644
--- a/src/mfast/ext_ref.h
+++ b/src/mfast/ext_ref.h
@@ -149,16 +149,12 @@ public:
   explicit ext_cref(const field_cref &other) : base_(other) {}
   cref_type get() const { return base_; }
   length_type get_length(value_storage &storage) const {
-    if (std::is_same<typename LengthExtRef::operator_category, constant_operator_tag>::value)
-      storage = base_.instruction()->length_instruction()->initial_value();
-    else if (std::is_same<typename LengthExtRef::operator_category, copy_operator_tag>::value)
-      storage = base_.instruction()->length_instruction()->prev_value();
-    else if (std::is_same<typename LengthExtRef::operator_category, default_operator_tag>::value)
-      storage = base_.instruction()->length_instruction()->initial_or_default_value();
-
     uint32_mref length_mref(nullptr, &storage,
                             base_.instruction()->length_instruction());
-    length_mref.as(base_.size());
+    if (base_.present())
+      length_mref.as(base_.size());
+    else
+      length_mref.omit();
     return length_type(length_mref);
   }
 
-- 
2.43.0


From cf71b068663933523948e164d38e2a49335a2cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:28 +0000
Subject: [PATCH 034/119] fix: report D9 when encoding a message of an unknown
 template

---
 src/mfast/coder/encoder/fast_encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index f919505..7f21454 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -173,7 +173,7 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
 
   uint32_t template_id = cref.id();
 
-  template_instruction *instruction = *this->find(template_id);
+  template_instruction *instruction = this->get_template(template_id);
 
   if (instruction != nullptr) {
     constexpr std::size_t template_id_bit = 1;
-- 
2.43.0


From c96af9931734a62d8921cc4598e47452f624873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:28 +0000
Subject: [PATCH 035/119] fix: compute the deltas of integers and decimals
 without overflow

---
 src/mfast/coder/encoder/encoder_field_operator.cpp | 9 +++++++--
 src/mfast/coder/encoder_v2/fast_encoder_core.h     | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index 7d4a73b..bd4ce4a 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -453,7 +453,11 @@ class delta_operator : public encoder_field_operator,
       value_storage bv = delta_base_value_of(cref);
       T base(&bv, nullptr);
 
-      int64_t delta = static_cast<int64_t>(cref.value() - base.value());
+      // the difference is taken modulo 2^64, which is exact for the types of 32
+      // bits and does not overflow for the others.
+      int64_t delta =
+          static_cast<int64_t>(static_cast<uint64_t>(cref.value()) -
+                               static_cast<uint64_t>(base.value()));
 
       stream.encode(delta, false, cref.instruction()->is_nullable());
       stream.save_previous_value(cref);
@@ -551,7 +555,8 @@ public:
         delta_storage.of_decimal.exponent_ =
             cref.exponent() - bv.of_decimal.exponent_;
         delta_storage.of_decimal.mantissa_ =
-            cref.mantissa() - bv.of_decimal.mantissa_;
+            static_cast<int64_t>(static_cast<uint64_t>(cref.mantissa()) -
+                             static_cast<uint64_t>(bv.of_decimal.mantissa_));
         delta_storage.of_decimal.present_ = cref.present();
 
         decimal_cref delta(&delta_storage, cref.instruction());
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index dce0a4c..7f4362e 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -516,7 +516,11 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
     value_storage bv = delta_base_value_of(cref);
     typename T::cref_type base(&bv, nullptr);
 
-    int64_t delta = static_cast<int64_t>(cref.value() - base.value());
+    // the difference is taken modulo 2^64, which is exact for the types of 32
+    // bits and does not overflow for the others.
+    int64_t delta =
+        static_cast<int64_t>(static_cast<uint64_t>(cref.value()) -
+                             static_cast<uint64_t>(base.value()));
 
     strm_.encode(delta, false, ext_ref.nullable());
     strm_.save_previous_value(cref);
@@ -595,7 +599,8 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
     delta_storage.of_decimal.exponent_ =
         cref.exponent() - bv.of_decimal.exponent_;
     delta_storage.of_decimal.mantissa_ =
-        cref.mantissa() - bv.of_decimal.mantissa_;
+        static_cast<int64_t>(static_cast<uint64_t>(cref.mantissa()) -
+                             static_cast<uint64_t>(bv.of_decimal.mantissa_));
 
     delta_storage.present(true);
 
-- 
2.43.0


From e02f41152905f70f11a04fa712b5518c3d67af64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:02 +0000
Subject: [PATCH 036/119] fix: do not read past the end of the base value when
 encoding string deltas

---
 src/mfast/coder/common/codec_helper.h              | 12 ++++++++++++
 src/mfast/coder/encoder/encoder_field_operator.cpp |  6 ++++--
 src/mfast/coder/encoder_v2/fast_encoder_core.h     |  6 ++++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/mfast/coder/common/codec_helper.h b/src/mfast/coder/common/codec_helper.h
index bb01276..a7a792a 100644
--- a/src/mfast/coder/common/codec_helper.h
+++ b/src/mfast/coder/common/codec_helper.h
@@ -21,6 +21,18 @@ inline std::size_t bounded_sequence_size(std::size_t length, std::size_t index,
   return (std::min)(length, 2 * index + bytes_left + 1);
 }
 
+// std::mismatch() which also stops at the end of the second range.
+template <typename Iterator>
+inline std::pair<Iterator, Iterator>
+bounded_mismatch(Iterator first1, Iterator last1, Iterator first2,
+                 Iterator last2) {
+  while (first1 != last1 && first2 != last2 && *first1 == *first2) {
+    ++first1;
+    ++first2;
+  }
+  return std::make_pair(first1, first2);
+}
+
 class codec_helper {
 public:
   template <typename T> value_storage &previous_value_of(const T &mref) const {
diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index bd4ce4a..87b4f37 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -481,11 +481,13 @@ class delta_operator : public encoder_field_operator,
         difference_type;
 
     std::pair<const_iterator, const_iterator> common_prefix_positions =
-        std::mismatch(cref.begin(), cref.end(), prev_cref.begin());
+        mfast::detail::bounded_mismatch(cref.begin(), cref.end(),
+                                        prev_cref.begin(), prev_cref.end());
 
     std::pair<const_reverse_iterator, const_reverse_iterator>
         common_suffix_positions =
-            std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin());
+            mfast::detail::bounded_mismatch(cref.rbegin(), cref.rend(),
+                                        prev_cref.rbegin(), prev_cref.rend());
 
     int32_t substraction_len;
     const_iterator delta_iterator;
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 7f4362e..aee7b26 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -546,11 +546,13 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
       difference_type;
 
   std::pair<const_iterator, const_iterator> common_prefix_positions =
-      std::mismatch(cref.begin(), cref.end(), prev_cref.begin());
+      mfast::detail::bounded_mismatch(cref.begin(), cref.end(),
+                                        prev_cref.begin(), prev_cref.end());
 
   std::pair<const_reverse_iterator, const_reverse_iterator>
       common_suffix_positions =
-          std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin());
+          mfast::detail::bounded_mismatch(cref.rbegin(), cref.rend(),
+                                        prev_cref.rbegin(), prev_cref.rend());
 
   int32_t substraction_len;
   const_iterator delta_iterator;
-- 
2.43.0


From a816e3e6ba71a2c9f3e899f889fd3bd8d7bf54c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:02 +0000
Subject: [PATCH 037/119] fix: encode tail fields according to the state of the
 previous value

---
 .../coder/encoder/encoder_field_operator.cpp  | 32 ++++++++-----------
 .../coder/encoder_v2/fast_encoder_core.h      | 22 +++++++------
 2 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index 87b4f37..4b474e9 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -602,27 +602,21 @@ private:
   void encode_impl(const T &cref, fast_ostream &stream,
                    encoder_presence_map &pmap) const {
 
-    value_storage &prev = previous_value_of(cref);
-
-    // if (cref.absent()) {
-    //   if (!prev.is_defined() || prev.is_empty()) {
-    //     pmap.set_next_bit(false);
-    //   }
-    //   else {
-    //     pmap.set_next_bit(true);
-    //     stream.encode_null();
-    //   }
-    // }
-    // else
-    if (is_same()(cref, tail_base_value_of(cref))) {
+    const value_storage &prev = previous_value_of(cref);
+    bool in_dictionary;
+
+    if (!prev.is_defined())
+      in_dictionary = cref.is_initial_value();
+    else if (prev.is_empty())
+      in_dictionary = cref.absent();
+    else
+      in_dictionary = is_same()(cref, prev);
+
+    if (in_dictionary) {
       pmap.set_next_bit(false);
     } else if (cref.absent()) {
-      if (prev.is_defined() && prev.is_empty()) {
-        pmap.set_next_bit(false);
-      } else {
-        pmap.set_next_bit(true);
-        stream.encode_null();
-      }
+      pmap.set_next_bit(true);
+      stream.encode_null();
     } else {
       pmap.set_next_bit(true);
 
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index aee7b26..f55240a 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -621,17 +621,21 @@ void fast_encoder_core::encode_field(const T &ext_ref, tail_operator_tag,
   encoder_presence_map &pmap = *current_;
   typename T::cref_type cref = ext_ref.get();
 
-  value_storage &prev = previous_value_of(cref);
+  const value_storage &prev = previous_value_of(cref);
+  bool in_dictionary;
 
-  if (equivalent(cref, tail_base_value_of(cref))) {
+  if (!prev.is_defined())
+    in_dictionary = cref.is_initial_value();
+  else if (prev.is_empty())
+    in_dictionary = cref.absent();
+  else
+    in_dictionary = equivalent(cref, prev);
+
+  if (in_dictionary) {
     pmap.set_next_bit(false);
-  } else if (!ext_ref.present()) {
-    if (prev.is_defined() && prev.is_empty()) {
-      pmap.set_next_bit(false);
-    } else {
-      pmap.set_next_bit(true);
-      strm_.encode_null();
-    }
+  } else if (cref.absent()) {
+    pmap.set_next_bit(true);
+    strm_.encode_null();
   } else {
     pmap.set_next_bit(true);
 
-- 
2.43.0


From fa4a9c6f819bda3f34a7471040bc5aa27dce9a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:02 +0000
Subject: [PATCH 038/119] fix: report strings which cannot be expressed by the
 tail operator

---
 src/mfast/coder/encoder/encoder_field_operator.cpp | 5 +++++
 src/mfast/coder/encoder_v2/fast_encoder_core.h     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index 4b474e9..cf86af7 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -628,6 +628,11 @@ private:
       value_storage base = tail_base_value_of(cref);
       T base_cref(&base, cref.instruction());
 
+      if (cref.size() < base_cref.size()) {
+        // a tail never makes the base value shorter
+        BOOST_THROW_EXCEPTION(fast_dynamic_error("D1"));
+      }
+
       if (cref.size() == base_cref.size()) {
 
         std::pair<const_iterator, const_iterator> positions =
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index f55240a..945f65f 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -647,6 +647,11 @@ void fast_encoder_core::encode_field(const T &ext_ref, tail_operator_tag,
     value_storage base = tail_base_value_of(cref);
     typename T::cref_type base_cref(&base, cref.instruction());
 
+    if (cref.size() < base_cref.size()) {
+      // a tail never makes the base value shorter
+      BOOST_THROW_EXCEPTION(fast_dynamic_error("D1"));
+    }
+
     if (cref.size() == base_cref.size()) {
       std::pair<const_iterator, const_iterator> positions =
           std::mismatch(cref.begin(), cref.end(), base_cref.begin());
-- 
2.43.0


From 7aa83f97dcd853951ff1b7613ab10c18342a4833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:25 +0000
Subject: [PATCH 039/119] fix: an empty delta or tail is not NULL

---
 src/mfast/coder/common/codec_helper.h              | 7 +++++++
 src/mfast/coder/encoder/encoder_field_operator.cpp | 4 ++--
 src/mfast/coder/encoder_v2/fast_encoder_core.h     | 4 ++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/mfast/coder/common/codec_helper.h b/src/mfast/coder/common/codec_helper.h
index a7a792a..c22c2e9 100644
--- a/src/mfast/coder/common/codec_helper.h
+++ b/src/mfast/coder/common/codec_helper.h
@@ -33,6 +33,13 @@ bounded_mismatch(Iterator first1, Iterator last1, Iterator first2,
   return std::make_pair(first1, first2);
 }
 
+// An empty value does not necessarily have a buffer, whereas a null pointer
+// stands for NULL when encoding strings.
+template <typename T> inline const T *non_null(const T *p) {
+  static const T empty[1] = {0};
+  return p != nullptr ? p : empty;
+}
+
 class codec_helper {
 public:
   template <typename T> value_storage &previous_value_of(const T &mref) const {
diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index cf86af7..df7b932 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -518,7 +518,7 @@ class delta_operator : public encoder_field_operator,
     }
 
     stream.encode(substraction_len, false, cref.instruction()->is_nullable());
-    stream.encode(delta_iterator, delta_len, cref.instruction(), false);
+    stream.encode(mfast::detail::non_null(delta_iterator), delta_len, cref.instruction(), false);
 
     stream.save_previous_value(cref);
   }
@@ -644,7 +644,7 @@ private:
         tail_itr = cref.begin();
         tail_len = static_cast<uint32_t>(cref.size());
       }
-      stream.encode(tail_itr, tail_len, cref.instruction(),
+      stream.encode(mfast::detail::non_null(tail_itr), tail_len, cref.instruction(),
                     cref.instruction()->is_nullable());
     }
     stream.save_previous_value(cref);
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 945f65f..0da2ca0 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -584,7 +584,7 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
   }
 
   strm_.encode(substraction_len, false, ext_ref.nullable());
-  strm_.encode(delta_iterator, delta_len, cref.instruction(), false_type());
+  strm_.encode(mfast::detail::non_null(delta_iterator), delta_len, cref.instruction(), false_type());
 
   strm_.save_previous_value(cref);
 }
@@ -662,7 +662,7 @@ void fast_encoder_core::encode_field(const T &ext_ref, tail_operator_tag,
       tail_itr = cref.begin();
       tail_len = static_cast<uint32_t>(cref.size());
     }
-    strm_.encode(tail_itr, tail_len, cref.instruction(), ext_ref.nullable());
+    strm_.encode(mfast::detail::non_null(tail_itr), tail_len, cref.instruction(), ext_ref.nullable());
   }
   strm_.save_previous_value(cref);
 }
-- 
2.43.0


From 6860d6ea5fa9d3bfb337852e1e028ae63f8793cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:25 +0000
Subject: [PATCH 040/119] fix: count the presence map bits of both parts of a
 decimal

---
 src/mfast/instructions/decimal_instruction.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mfast/instructions/decimal_instruction.h b/src/mfast/instructions/decimal_instruction.h
index fbeeb10..814e11a 100644
--- a/src/mfast/instructions/decimal_instruction.h
+++ b/src/mfast/instructions/decimal_instruction.h
@@ -82,10 +82,13 @@ public:
     mantissa_instruction_ = v;
     this->initial_value_.of_decimal.mantissa_ =
         mantissa_instruction_->initial_value().get<int64_t>();
+  }
 
-    if (has_pmap_bit_ == 0) {
-      has_pmap_bit_ = (mantissa_instruction_->pmap_size() > 0);
-    }
+  /// A decimal with individual operators may need a bit for the exponent and
+  /// another one for the mantissa.
+  virtual std::size_t pmap_size() const override {
+    return field_instruction::pmap_size() +
+           (mantissa_instruction_ ? mantissa_instruction_->pmap_size() : 0);
   }
 
   static const decimal_field_instruction *default_instruction();
-- 
2.43.0


From 0e8c1ea09586908b119070b2d147a148b7a9774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:25 +0000
Subject: [PATCH 041/119] fix: keep within the presence map when encoding and
 shrinking it

---
 src/mfast/coder/encoder/encoder_presence_map.h | 16 +++++++++++-----
 src/mfast/coder/encoder/fast_ostream.h         |  8 +++++---
 src/mfast/coder/encoder/fast_ostreambuf.cpp    | 12 +++++-------
 src/mfast/coder/encoder/fast_ostreambuf.h      |  3 ++-
 4 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_presence_map.h b/src/mfast/coder/encoder/encoder_presence_map.h
index ab8be89..b62b4fa 100644
--- a/src/mfast/coder/encoder/encoder_presence_map.h
+++ b/src/mfast/coder/encoder/encoder_presence_map.h
@@ -32,19 +32,20 @@ private:
   std::size_t nbytes_;
   std::size_t value_, mask_;
   fast_ostream *stream_;
-  std::size_t offset_;
+  std::size_t begin_;  // where the presence map begins in the stream
+  std::size_t offset_; // where the next bytes of the presence map go
   std::size_t maxbytes_;
 };
 
 inline encoder_presence_map::encoder_presence_map()
-    : stream_(nullptr), offset_(0), maxbytes_(0) {
+    : stream_(nullptr), begin_(0), offset_(0), maxbytes_(0) {
   reset();
 }
 
 inline void encoder_presence_map::init(fast_ostream *stream,
                                        std::size_t maxbits) {
   stream_ = stream;
-  offset_ = stream->offset();
+  begin_ = offset_ = stream->offset();
   maxbytes_ = (maxbits + 6) / 7; // i.e. ceiling(maxbits/7)
   stream_->buf_->skip(maxbytes_);
 }
@@ -56,6 +57,11 @@ inline void encoder_presence_map::reset() {
 }
 
 inline void encoder_presence_map::commit() {
+  // Not all the bits which have been reserved are necessarily used: the
+  // mantissa of an absent decimal does not occupy any.
+  while (nbytes_ + 1 < maxbytes_)
+    set_next_bit(false);
+
 #ifdef BOOST_BIG_ENDIAN
   const std::size_t stop_bit_mask = (init_mask >> (nbytes_ * 8));
 #else
@@ -63,7 +69,7 @@ inline void encoder_presence_map::commit() {
 #endif
 
   value_ |= stop_bit_mask;
-  stream_->write_bytes_at(&value_, ++nbytes_, offset_, true);
+  stream_->write_bytes_at(&value_, ++nbytes_, offset_, true, begin_);
 }
 
 inline BOOST_CONSTEXPR std::size_t get_next_bit_mask(std::size_t i) {
@@ -86,7 +92,7 @@ inline void encoder_presence_map::set_next_bit(bool v) {
 
   if (mask_ == 0) {
     // we need to commit the current pmap before preceed
-    stream_->write_bytes_at(&value_, sizeof(std::size_t), offset_, false);
+    stream_->write_bytes_at(&value_, sizeof(std::size_t), offset_, false, begin_);
     offset_ += sizeof(std::size_t);
     maxbytes_ -= sizeof(std::size_t);
     reset();
diff --git a/src/mfast/coder/encoder/fast_ostream.h b/src/mfast/coder/encoder/fast_ostream.h
index cd9aaba..bfd40cd 100644
--- a/src/mfast/coder/encoder/fast_ostream.h
+++ b/src/mfast/coder/encoder/fast_ostream.h
@@ -46,7 +46,8 @@ private:
   friend class encoder_presence_map;
 
   void write_bytes_at(std::size_t *bytes, std::size_t nbytes,
-                      std::size_t offset, bool pmap_end);
+                      std::size_t offset, bool pmap_end,
+                      std::size_t pmap_begin);
 
   std::size_t offset() const { return rdbuf()->length(); }
   fast_ostreambuf *buf_;
@@ -239,9 +240,10 @@ inline void fast_ostream::save_previous_value(const T &cref) const {
 }
 
 inline void fast_ostream::write_bytes_at(std::size_t *bytes, std::size_t nbytes,
-                                         std::size_t offset, bool pmap_end) {
+                                         std::size_t offset, bool pmap_end,
+                                         std::size_t pmap_begin) {
   rdbuf()->write_bytes_at(reinterpret_cast<const char *>(bytes), nbytes, offset,
-                          pmap_end && !allow_overlong_pmap_);
+                          pmap_end && !allow_overlong_pmap_, pmap_begin);
 }
 
 inline void fast_ostream::encode_null() { rdbuf()->sputc('\x80'); }
diff --git a/src/mfast/coder/encoder/fast_ostreambuf.cpp b/src/mfast/coder/encoder/fast_ostreambuf.cpp
index 5492f7f..ac8f51c 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.cpp
+++ b/src/mfast/coder/encoder/fast_ostreambuf.cpp
@@ -15,20 +15,18 @@ void fast_ostreambuf::overflow(std::size_t) { throw buffer_overflow_error(); }
 std::size_t fast_ostreambuf::length() const { return pptr_ - pbase_; }
 
 void fast_ostreambuf::write_bytes_at(const char *data, std::size_t n,
-                                     std::size_t offset, bool shrink) {
+                                     std::size_t offset, bool shrink,
+                                     std::size_t pmap_begin) {
   assert((pbase_ + offset + n) <= pptr_);
   std::copy(data, data + n, pbase_ + offset);
 
   if (shrink) {
     std::size_t index = offset + n - 1;
     if (pbase_[index] == '\x80') {
-      --index;
-      for (; index > 0 && pbase_[index] == 0; --index)
-        ;
+      // the bytes of the presence map before the last one have no stop bit
+      while (index > pmap_begin && (pbase_[index] & 0x7F) == 0)
+        --index;
 
-      if (pbase_[index] & '\x80') {
-        ++index;
-      }
       pbase_[index] |= '\x80';
       ++index;
       const char *src = pbase_ + offset + n;
diff --git a/src/mfast/coder/encoder/fast_ostreambuf.h b/src/mfast/coder/encoder/fast_ostreambuf.h
index 7d7b98f..edaa96a 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.h
+++ b/src/mfast/coder/encoder/fast_ostreambuf.h
@@ -28,7 +28,8 @@ public:
 
   virtual std::size_t length() const;
   virtual void write_bytes_at(const char *data, std::size_t n,
-                              std::size_t offset, bool shrink);
+                              std::size_t offset, bool shrink,
+                              std::size_t pmap_begin);
 
   const char *pbase() const { return pbase_; }
 
-- 
2.43.0


From e26093b5eaca5a5ea902a5152ee17050b8ead1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:25 +0000
Subject: [PATCH 042/119] fix: use the last byte of the buffer when encoding

---
 src/mfast/coder/encoder/fast_ostreambuf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_ostreambuf.h b/src/mfast/coder/encoder/fast_ostreambuf.h
index edaa96a..6167fb6 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.h
+++ b/src/mfast/coder/encoder/fast_ostreambuf.h
@@ -55,7 +55,7 @@ inline void fast_ostreambuf::sputc(char c) {
 }
 
 inline void fast_ostreambuf::sputn(const char *data, std::size_t n) {
-  while (pptr_ + n >= epptr_)
+  while (n > static_cast<std::size_t>(epptr_ - pptr_))
     overflow(n);
 
   std::copy(data, data + n, pptr_);
@@ -63,7 +63,7 @@ inline void fast_ostreambuf::sputn(const char *data, std::size_t n) {
 }
 
 inline void fast_ostreambuf::skip(std::size_t n) {
-  while (pptr_ + n >= epptr_)
+  while (n > static_cast<std::size_t>(epptr_ - pptr_))
     overflow(n);
   pptr_ += n;
 }
-- 
2.43.0


From 5c1e76815c196d24ffcdd4126ab0761b03c56fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:25 +0000
Subject: [PATCH 043/119] fix: leave the buffer as it was when a message cannot
 be encoded

---
 src/mfast/coder/encoder/fast_encoder.cpp       | 8 +++++++-
 src/mfast/coder/encoder_v2/fast_encoder_core.h | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 7f21454..64bbb14 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -237,9 +237,15 @@ std::size_t fast_encoder::encode(const message_cref &message, char *buffer,
 
 void fast_encoder::encode(const message_cref &message,
                           std::vector<char> &buffer, bool force_reset) {
+  const std::size_t old_size = buffer.size();
   resizable_fast_ostreambuf sb(buffer);
   impl_->strm_.rdbuf(&sb);
-  impl_->visit(message, force_reset);
+  try {
+    impl_->visit(message, force_reset);
+  } catch (...) {
+    buffer.resize(old_size);
+    throw;
+  }
   buffer.resize(sb.length());
 }
 
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 0da2ca0..ac0df3a 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -203,9 +203,15 @@ inline std::size_t fast_encoder_core::encode_i(const message_cref &message,
 inline void fast_encoder_core::encode_i(const message_cref &message,
                                         std::vector<char> &buffer,
                                         bool force_reset) {
+  const std::size_t old_size = buffer.size();
   resizable_fast_ostreambuf sb(buffer);
   this->strm_.rdbuf(&sb);
-  this->encode_segment(message, force_reset);
+  try {
+    this->encode_segment(message, force_reset);
+  } catch (...) {
+    buffer.resize(old_size);
+    throw;
+  }
   buffer.resize(sb.length());
 }
 
-- 
2.43.0


From 44a14594762cb8a72419278c01ad66337b9dc3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:58 +0000
Subject: [PATCH 044/119] fix: keep the active template when a message cannot
 be encoded

---
 src/mfast/coder/encoder/fast_encoder.cpp        | 17 +++++++++++++++--
 .../coder/encoder_v2/fast_encoder_core.cpp      | 12 ++++++++++++
 src/mfast/coder/encoder_v2/fast_encoder_core.h  |  5 +++--
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 64bbb14..f2201b8 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -66,6 +66,8 @@ struct fast_encoder_impl : simple_template_repo_t {
   void visit(nested_message_cref, int);
 
   void visit(message_cref cref, bool force_reset);
+
+  void encode(message_cref cref, bool force_reset);
 };
 
 inline fast_encoder_impl::fast_encoder_impl(allocator *alloc)
@@ -211,6 +213,17 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
   pmap.commit();
 }
 
+void fast_encoder_impl::encode(message_cref cref, bool force_reset) {
+  const int64_t saved_message_id = active_message_id_;
+  try {
+    visit(cref, force_reset);
+  } catch (...) {
+    // the receiver never sees the template identifier of a failed message
+    active_message_id_ = saved_message_id;
+    throw;
+  }
+}
+
 fast_encoder::fast_encoder(allocator *alloc)
     : impl_(new fast_encoder_impl(alloc)) {}
 
@@ -231,7 +244,7 @@ std::size_t fast_encoder::encode(const message_cref &message, char *buffer,
 
   fast_ostreambuf sb(buffer, buffer_size);
   impl_->strm_.rdbuf(&sb);
-  impl_->visit(message, force_reset);
+  impl_->encode(message, force_reset);
   return sb.length();
 }
 
@@ -241,7 +254,7 @@ void fast_encoder::encode(const message_cref &message,
   resizable_fast_ostreambuf sb(buffer);
   impl_->strm_.rdbuf(&sb);
   try {
-    impl_->visit(message, force_reset);
+    impl_->encode(message, force_reset);
   } catch (...) {
     buffer.resize(old_size);
     throw;
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.cpp b/src/mfast/coder/encoder_v2/fast_encoder_core.cpp
index c18231a..94cd945 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.cpp
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.cpp
@@ -40,5 +40,17 @@ void fast_encoder_core::encode_segment(const message_cref cref,
   pmap.commit();
 }
 
+void fast_encoder_core::encode_top_segment(const message_cref cref,
+                                           bool force_reset) {
+  info_entry *saved_message_info = active_message_info_;
+  try {
+    encode_segment(cref, force_reset);
+  } catch (...) {
+    // the receiver never sees the template identifier of a failed message
+    active_message_info_ = saved_message_info;
+    throw;
+  }
+}
+
 } /* coder */
 } /* mfast */
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index ac0df3a..df4fd6f 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -71,6 +71,7 @@ struct MFAST_CODER_EXPORT fast_encoder_core : mfast::detail::codec_helper {
 
   /// message encode functions
   void encode_segment(const message_cref cref, bool force_reset);
+  void encode_top_segment(const message_cref cref, bool force_reset);
 
   template <typename Message> void encode_message(const message_cref &cref);
 
@@ -196,7 +197,7 @@ inline std::size_t fast_encoder_core::encode_i(const message_cref &message,
 
   fast_ostreambuf sb(buffer, buffer_size);
   this->strm_.rdbuf(&sb);
-  this->encode_segment(message, force_reset);
+  this->encode_top_segment(message, force_reset);
   return sb.length();
 }
 
@@ -207,7 +208,7 @@ inline void fast_encoder_core::encode_i(const message_cref &message,
   resizable_fast_ostreambuf sb(buffer);
   this->strm_.rdbuf(&sb);
   try {
-    this->encode_segment(message, force_reset);
+    this->encode_top_segment(message, force_reset);
   } catch (...) {
     buffer.resize(old_size);
     throw;
-- 
2.43.0


From 3a87f12a032f8fc49b336710bb64b0ef129c389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:58 +0000
Subject: [PATCH 045/119] fix: report dynamic template references without a
 message when encoding

---
 src/mfast/coder/encoder/fast_encoder.cpp       | 4 ++++
 src/mfast/coder/encoder_v2/fast_encoder_core.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index f2201b8..2278e6b 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -162,6 +162,10 @@ inline void fast_encoder_impl::visit(sequence_element_cref cref, int) {
 }
 
 inline void fast_encoder_impl::visit(nested_message_cref cref, int) {
+  // a dynamic template reference without a message has nothing to send
+  if (cref.target_instruction() == nullptr)
+    BOOST_THROW_EXCEPTION(fast_dynamic_error("D9"));
+
   int64_t saved_message_id = active_message_id_;
   encoder_presence_map *prev_pmap = this->current_;
   visit(cref.target(), false);
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index df4fd6f..2cd05f4 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -225,6 +225,10 @@ template <typename T> inline void fast_encoder_core::visit(const T &ext_ref) {
 }
 
 inline void fast_encoder_core::visit(const nested_message_cref &cref) {
+  // a dynamic template reference without a message has nothing to send
+  if (cref.target_instruction() == nullptr)
+    BOOST_THROW_EXCEPTION(fast_dynamic_error("D9"));
+
   info_entry *saved_message_info = active_message_info_;
   encoder_presence_map *prev_pmap = this->current_;
   encode_segment(cref.target(), false);
-- 
2.43.0


From b96699ac78df8a479e11f6b0c79b1820a6360f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:25 +0000
Subject: [PATCH 046/119] fix: send NULL for the absent exponent or length with
 a default value

---
 src/mfast/coder/encoder/fast_encoder.cpp      |  2 +-
 .../coder/encoder_v2/fast_encoder_core.h      | 26 +++++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 2278e6b..fb295fb 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -208,7 +208,7 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
     // An absent field with a default value is left to the decoder's default.
     if (field.absent() &&
         field.instruction()->field_operator() == operator_default &&
-        field.instruction()->field_type() != field_type_sequence)
+        field.instruction()->field_type() != field_type_exponent)
       current_pmap().set_next_bit(false);
     else
       apply_accessor(*this, field);
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 2cd05f4..0106ef9 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -99,6 +99,15 @@ struct MFAST_CODER_EXPORT fast_encoder_core : mfast::detail::codec_helper {
 
   template <typename T> void encode_field(const T &ext_ref, sequence_type_tag);
 
+  // The exponent of a decimal and the length of a sequence have to be sent as
+  // NULL when they are absent: what follows them depends on it.
+  template <typename T, typename Operator>
+  bool encode_absent_default(const T &, Operator) {
+    return false;
+  }
+  template <typename T>
+  bool encode_absent_default(const T &ext_ref, default_operator_tag);
+
   template <typename T, typename TypeCategory>
   void encode_field(const T &ext_ref, none_operator_tag, TypeCategory);
 
@@ -245,6 +254,9 @@ template <typename T>
 inline void fast_encoder_core::encode_field(const T &ext_ref,
                                             split_decimal_type_tag) {
   typename T::exponent_type exponent_ref = ext_ref.get_exponent();
+  if (encode_absent_default(exponent_ref,
+                            typename T::exponent_type::operator_category()))
+    return;
   this->visit(exponent_ref);
   if (exponent_ref.present()) {
     this->visit(ext_ref.get_mantissa());
@@ -288,6 +300,9 @@ inline void fast_encoder_core::encode_field(const T &ext_ref,
   value_storage storage;
 
   typename T::length_type length = ext_ref.get_length(storage);
+  if (encode_absent_default(length,
+                            typename T::length_type::operator_category()))
+    return;
   this->visit(length);
   std::size_t sz = length.present() ? length.get().value() : 0;
   for (std::size_t i = 0; i < sz; ++i) {
@@ -295,6 +310,17 @@ inline void fast_encoder_core::encode_field(const T &ext_ref,
   }
 }
 
+template <typename T>
+inline bool fast_encoder_core::encode_absent_default(const T &ext_ref,
+                                                     default_operator_tag) {
+  if (ext_ref.present() ||
+      ext_ref.get().instruction()->initial_value().is_empty())
+    return false;
+  current_->set_next_bit(true);
+  strm_.encode_null();
+  return true;
+}
+
 template <typename T, typename TypeCategory>
 void fast_encoder_core::encode_field(const T &ext_ref, none_operator_tag,
                                      TypeCategory) {
-- 
2.43.0


From 78661fd54d8c242705d023ff18a1eacac13229fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:28 +0000
Subject: [PATCH 047/119] fix: a decimal of zero is not the same as no initial
 value

---
 src/mfast/decimal_ref.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mfast/decimal_ref.h b/src/mfast/decimal_ref.h
index 1397d4b..b6fc667 100644
--- a/src/mfast/decimal_ref.h
+++ b/src/mfast/decimal_ref.h
@@ -178,8 +178,10 @@ inline bool operator!=(const decimal_cref &lhs, const decimal_cref &rhs) {
   return !(lhs == rhs);
 }
 inline bool decimal_cref::is_initial_value() const {
-  return *this == decimal_cref(&this->instruction()->initial_value(),
-                               this->instruction());
+  const value_storage &initial = this->instruction()->initial_value();
+  return this->absent() == initial.is_empty() &&
+         (this->absent() ||
+          *this == decimal_cref(&initial, this->instruction()));
 }
 
 class exponent_mref : public exponent_cref {
-- 
2.43.0


From 0777a0c4ae17a67df6bf3635cd91821b10ab6891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:14 +0000
Subject: [PATCH 048/119] fix: reserving space in an absent vector field must
 not make it present

---
 src/mfast/vector_ref.h | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index f01e236..81fac33 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -461,11 +461,6 @@ void vector_mref_base<T>::reserve(
       if (n > 0)
         std::memcpy(this->storage()->of_array.content_, old_addr,
                     std::min<size_t>(this->size(), n) * sizeof(value_type));
-    } else {
-      // if this->storage()->of_array.len_ was 0, it needs to be set to 1 to
-      // indicate
-      // buffer has been allocated yet no data be written to it yet.
-      this->storage()->of_array.len_ = 1;
     }
   }
 }
-- 
2.43.0


From cf0ee837bcc66ea097b71d77a17faafc66eb5216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:14 +0000
Subject: [PATCH 049/119] fix: c_str() of a shortened or cleared string that
 does not own its content

---
 src/mfast/string_ref.h | 2 +-
 src/mfast/vector_ref.h | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mfast/string_ref.h b/src/mfast/string_ref.h
index 122eb0b..ac817a0 100644
--- a/src/mfast/string_ref.h
+++ b/src/mfast/string_ref.h
@@ -84,7 +84,7 @@ public:
   }
 
   const char *c_str() const {
-    if (this->absent())
+    if (this->absent() || this->size() == 0)
       return "";
     if (this->storage()->of_array.capacity_in_bytes_ > 0) {
       const_cast<char &>(*this->end()) = '\0';
diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 81fac33..5961035 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -231,8 +231,10 @@ public:
 
   void push_back(value_type c) const { insert(end(), c); }
   void pop_back() const {
+    // resize() takes a copy first when the content is not owned by the field;
+    // the content could not be terminated in place otherwise.
     if (this->size())
-      this->storage()->of_array.len_ -= 1;
+      this->resize(this->size() - 1);
   }
 
   iterator insert(iterator position, value_type val) const {
-- 
2.43.0


From 848fa0291f8576a3cf65e2624839100e68613ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:14 +0000
Subject: [PATCH 050/119] fix: integer vector types and swap could not be
 instantiated

---
 src/mfast/vector_ref.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 5961035..100924c 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -379,7 +379,7 @@ public:
     return int_vector_cref<T>(this->storage(), this->instruction());
   }
 
-  void swap(const int_vector_cref<T> &other) const { base_type::swap(other); }
+  void swap(const int_vector_mref<T> &other) const { base_type::swap(other); }
 };
 
 typedef vector_mref<unsigned char> byte_vector_mref;
@@ -424,10 +424,10 @@ private:
 };
 
 typedef vector_type<byte_vector_cref> byte_vector_type;
-typedef int_vector_mref<int32_vector_cref> int32_vector_type;
-typedef int_vector_mref<uint32_vector_cref> uint32_vector_type;
-typedef int_vector_mref<int64_vector_cref> int64_vector_type;
-typedef int_vector_mref<uint64_vector_cref> uint64_vector_type;
+typedef vector_type<int32_vector_cref> int32_vector_type;
+typedef vector_type<uint32_vector_cref> uint32_vector_type;
+typedef vector_type<int64_vector_cref> int64_vector_type;
+typedef vector_type<uint64_vector_cref> uint64_vector_type;
 
 template <typename T>
 void vector_mref_base<T>::reserve(
-- 
2.43.0


From 4be87c7b9cd6f496dcdb3dde8bb9d8fce2625991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:23 +0000
Subject: [PATCH 051/119] fix: copying a borrowed string or vector read past
 its end

---
 src/mfast/instructions/string_instructions.cpp     | 6 ++++--
 src/mfast/instructions/vector_instruction_base.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mfast/instructions/string_instructions.cpp b/src/mfast/instructions/string_instructions.cpp
index 334dfda..f2a194b 100644
--- a/src/mfast/instructions/string_instructions.cpp
+++ b/src/mfast/instructions/string_instructions.cpp
@@ -49,8 +49,10 @@ void ascii_field_instruction::copy_construct_value(const value_storage &src,
     dest.of_array.content_ = nullptr;
     dest.of_array.capacity_in_bytes_ =
         alloc->reallocate(dest.of_array.content_, 0, len * element_size_);
-    std::memcpy(dest.of_array.content_, src.of_array.content_,
-                len * element_size_);
+    // there is not necessarily anything to read behind the last element
+    if (len > 1)
+      std::memcpy(dest.of_array.content_, src.of_array.content_,
+                  (len - 1) * element_size_);
   } else {
     dest.of_array.content_ = src.of_array.content_;
     dest.of_array.capacity_in_bytes_ = 0;
diff --git a/src/mfast/instructions/vector_instruction_base.cpp b/src/mfast/instructions/vector_instruction_base.cpp
index 9c752ca..4cda643 100644
--- a/src/mfast/instructions/vector_instruction_base.cpp
+++ b/src/mfast/instructions/vector_instruction_base.cpp
@@ -30,8 +30,10 @@ void vector_field_instruction_base::copy_construct_value(
     dest.of_array.content_ = nullptr;
     dest.of_array.capacity_in_bytes_ = alloc->reallocate(
         dest.of_array.content_, 0, src.of_array.len_ * element_size_);
-    std::memcpy(dest.of_array.content_, src.of_array.content_,
-                src.of_array.len_ * element_size_);
+    // there is not necessarily anything to read behind the last element
+    if (src.of_array.len_ > 1)
+      std::memcpy(dest.of_array.content_, src.of_array.content_,
+                  (src.of_array.len_ - 1) * element_size_);
   } else {
     dest.of_array.capacity_in_bytes_ = 0;
     dest.of_array.content_ = nullptr;
-- 
2.43.0


From 901937de04694ee9fa1f7e2a1b1d1a851b65d04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:01 +0000
Subject: [PATCH 052/119] fix: reserving less than the size of borrowed content
 left the field longer than its storage

---
 src/mfast/vector_ref.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 100924c..1c87941 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -434,6 +434,9 @@ void vector_mref_base<T>::reserve(
     typename vector_mref_base<T>::size_t n) const {
   if (capacity() > n)
     return;
+  // In the case when the this->capacity == 0 && this->size() > 0, reserve()
+  // could be invoked with n < this->size(); the elements still have to fit.
+  n = (std::max)(n, static_cast<size_t>(this->size()));
   // the capacity has to fit in the 31 bits of capacity_in_bytes_
   const std::size_t max_capacity = 0x7FFFFFFF;
   if (n >= max_capacity / sizeof(value_type))
@@ -456,14 +459,9 @@ void vector_mref_base<T>::reserve(
     this->storage()->of_array.capacity_in_bytes_ =
         static_cast<uint32_t>((std::min)(max_capacity, new_capacity));
     // Copy the old content to the new buffer.
-    // In the case when the this->capacity == 0 && this->size() > 0,
-    // reserve() could be invoked with n < this->size(). Thus, we can
-    // only copy min(size(), n) elements to the new buffer.
-    if (this->storage()->of_array.len_ > 1) {
-      if (n > 0)
-        std::memcpy(this->storage()->of_array.content_, old_addr,
-                    std::min<size_t>(this->size(), n) * sizeof(value_type));
-    }
+    if (this->size() > 0)
+      std::memcpy(this->storage()->of_array.content_, old_addr,
+                  this->size() * sizeof(value_type));
   }
 }
 
-- 
2.43.0


From db923a4ddd9a6afd0d4029a032b9943a469718f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:01 +0000
Subject: [PATCH 053/119] fix: replacing part of borrowed content modified it
 in place, initial values included

---
 src/mfast/vector_ref.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 1c87941..14c8639 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -493,6 +493,8 @@ void vector_mref_base<T>::replace(size_t pos, size_t count,
     // all the elements starting from pos are to removed from the vector
     this->resize(pos + count2);
   } else {
+    // borrowed content must not be modified in place
+    this->reserve(this->size());
     std::ptrdiff_t diff = count2 - count;
     if (diff > 0) {
       // some elements has to be shift back
-- 
2.43.0


From fdc82594c4eace2c3000f5211213a997e87fe547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:27 +0000
Subject: [PATCH 054/119] fix: allocators granted requests whose size
 overflowed while it was rounded up

---
 src/mfast/arena_allocator.cpp  | 9 +++++++++
 src/mfast/malloc_allocator.cpp | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/mfast/arena_allocator.cpp b/src/mfast/arena_allocator.cpp
index cf6e3b5..448b96a 100644
--- a/src/mfast/arena_allocator.cpp
+++ b/src/mfast/arena_allocator.cpp
@@ -11,6 +11,11 @@
 
 namespace mfast {
 
+namespace {
+// sizes above would overflow while they are rounded up
+const std::size_t max_request = static_cast<std::size_t>(-1) / 4;
+}
+
 void arena_allocator::free_list(memory_chunk_base *head) {
   memory_chunk_base *tmp;
   while (head) {
@@ -33,6 +38,8 @@ arena_allocator::~arena_allocator() {
 }
 
 void *arena_allocator::allocate(std::size_t n) {
+  if (n > max_request)
+    throw std::bad_alloc();
   // align n to the multiple of pointer
   n = align(n, sizeof(void *));
 
@@ -81,6 +88,8 @@ void *arena_allocator::allocate(std::size_t n) {
 
 std::size_t arena_allocator::reallocate(void *&pointer, std::size_t old_size,
                                         std::size_t new_size) {
+  if (new_size > max_request)
+    throw std::bad_alloc();
   // make the new_size at least 64 bytes
   new_size = align(static_cast<std::size_t>(new_size) * 2, 64);
   void *old_pointer = pointer;
diff --git a/src/mfast/malloc_allocator.cpp b/src/mfast/malloc_allocator.cpp
index fdb2219..a76c4f3 100644
--- a/src/mfast/malloc_allocator.cpp
+++ b/src/mfast/malloc_allocator.cpp
@@ -24,6 +24,8 @@ void *malloc_allocator::allocate(std::size_t s) {
 std::size_t malloc_allocator::reallocate(void *&pointer,
                                          std::size_t /* old_size */,
                                          std::size_t new_size) {
+  if (new_size > static_cast<std::size_t>(-1) / 4)
+    throw std::bad_alloc();
   // make the new_size at least 64 bytes
   new_size = std::max<std::size_t>(2 * new_size, 64) & (~63);
   void *new_pointer = std::realloc(pointer, new_size);
-- 
2.43.0


From 6e16cbc5b36631c350ded02505c774c2b0ea4705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:27 +0000
Subject: [PATCH 055/119] fix: an arena lost memory on every reset, and its
 chunk list after a failed allocation

---
 src/mfast/arena_allocator.cpp | 49 +++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/mfast/arena_allocator.cpp b/src/mfast/arena_allocator.cpp
index 448b96a..2037849 100644
--- a/src/mfast/arena_allocator.cpp
+++ b/src/mfast/arena_allocator.cpp
@@ -46,15 +46,35 @@ void *arena_allocator::allocate(std::size_t n) {
   if (current_list_head_->size() < n) {
     // current block does not have enough memory
 
-    if (free_list_head_ && free_list_head_->size() >= n) {
-      // The head of free_list is big enough,
-      // move the head of free_listto become the head of current_list
-      memory_chunk_base *tmp = free_list_head_;
-      free_list_head_ = static_cast<memory_chunk *>(free_list_head_->next_);
-
-      tmp->next_ = current_list_head_;
-      current_list_head_ = static_cast<memory_chunk *>(tmp);
+    // look for a chunk in the free list which is big enough
+    memory_chunk_base *previous = nullptr;
+    memory_chunk *chunk = free_list_head_;
+    while (chunk && chunk->size() < n) {
+      previous = chunk;
+      chunk = static_cast<memory_chunk *>(chunk->next_);
+    }
+
+    if (chunk) {
+      // move it from the free_list to become the head of current_list
+      memory_chunk *rest = static_cast<memory_chunk *>(chunk->next_);
+      if (previous)
+        previous->next_ = rest;
+      else
+        free_list_head_ = rest;
+
+      chunk->next_ = current_list_head_;
+      current_list_head_ = chunk;
     } else {
+      // allocate new memory chunk from the system
+      std::size_t new_chunk_size = align(
+          n + sizeof(memory_chunk) -
+              sizeof(uint64_t), // minimum size for the new block
+          default_chunk_size);  // make the size multiple of default_chunk_size
+
+      void *block = malloc(new_chunk_size);
+      if (block == nullptr)
+        throw std::bad_alloc();
+
       if (current_list_head_->size() >= 64) {
         // if current block is have plenty of free space, move it to the
         // free_list
@@ -65,15 +85,6 @@ void *arena_allocator::allocate(std::size_t n) {
         current_list_head_ =
             static_cast<memory_chunk *>(tmp_current_list_head_head);
       }
-      // allocate new memory chunk from the system
-      std::size_t new_chunk_size = align(
-          n + sizeof(memory_chunk) -
-              sizeof(uint64_t), // minimum size for the new block
-          default_chunk_size);  // make the size multiple of default_chunk_size
-
-      void *block = malloc(new_chunk_size);
-      if (block == nullptr)
-        throw std::bad_alloc();
       current_list_head_ =
           new (block) memory_chunk(new_chunk_size, current_list_head_);
     }
@@ -106,6 +117,10 @@ bool arena_allocator::reset() {
     tmp = static_cast<memory_chunk *>(tmp->next_);
     tmp->start_ = reinterpret_cast<char *>(tmp->user_memory);
   }
+  // the chunks in the free_list may have leased memory blocks as well
+  for (memory_chunk_base *free_chunk = free_list_head_; free_chunk != nullptr;
+       free_chunk = free_chunk->next_)
+    free_chunk->start_ = reinterpret_cast<char *>(free_chunk->user_memory);
   // append the free_list_head_ to the tail of current_list
   tmp->next_ = free_list_head_;
   // make current_list_head_->next_ to become the new head of free_list
-- 
2.43.0


From 9b16a8b0c5314baba9481235982b79b659a3c240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:59 +0000
Subject: [PATCH 056/119] fix: an allocation failure while constructing fields
 corrupted the message

---
 src/mfast/instructions/group_instruction.cpp  | 56 +++++++++++++++----
 .../instructions/sequence_instruction.cpp     | 54 ++++++++++++------
 .../instructions/template_instruction.cpp     |  8 ++-
 .../instructions/templateref_instruction.cpp  | 45 +++++++++------
 src/mfast/sequence_ref.cpp                    | 46 ++++++++++-----
 5 files changed, 151 insertions(+), 58 deletions(-)

diff --git a/src/mfast/instructions/group_instruction.cpp b/src/mfast/instructions/group_instruction.cpp
index 3f26ea1..eacf63c 100644
--- a/src/mfast/instructions/group_instruction.cpp
+++ b/src/mfast/instructions/group_instruction.cpp
@@ -9,8 +9,17 @@
 namespace mfast {
 void group_field_instruction::construct_group_subfields(
     value_storage *subfields, allocator *alloc) const {
-  for (uint32_t i = 0; i < this->subinstructions_.size(); ++i) {
-    this->subinstructions_[i]->construct_value(subfields[i], alloc);
+  uint32_t i = 0;
+  try {
+    for (; i < this->subinstructions_.size(); ++i) {
+      this->subinstructions_[i]->construct_value(subfields[i], alloc);
+    }
+  } catch (...) {
+    while (i > 0) {
+      --i;
+      this->subinstructions_[i]->destruct_value(subfields[i], alloc);
+    }
+    throw;
   }
 }
 
@@ -43,9 +52,18 @@ int group_field_instruction::find_subinstruction_index_by_name(
 void group_field_instruction::copy_group_subfields(
     const value_storage *src_subfields, value_storage *dest_subfields,
     allocator *alloc) const {
-  for (uint32_t i = 0; i < this->subinstructions_.size(); ++i) {
-    this->subinstructions_[i]->copy_construct_value(src_subfields[i],
-                                                    dest_subfields[i], alloc);
+  uint32_t i = 0;
+  try {
+    for (; i < this->subinstructions_.size(); ++i) {
+      this->subinstructions_[i]->copy_construct_value(src_subfields[i],
+                                                      dest_subfields[i], alloc);
+    }
+  } catch (...) {
+    while (i > 0) {
+      --i;
+      this->subinstructions_[i]->destruct_value(dest_subfields[i], alloc);
+    }
+    throw;
   }
 }
 
@@ -58,7 +76,12 @@ void group_field_instruction::construct_value(value_storage &storage,
   storage.of_group.content_ =
       static_cast<value_storage *>(alloc->allocate(group_content_byte_count()));
   storage.of_group.own_content_ = true;
-  construct_group_subfields(storage.of_group.content_, alloc);
+  try {
+    construct_group_subfields(storage.of_group.content_, alloc);
+  } catch (...) {
+    alloc->deallocate(storage.of_group.content_, group_content_byte_count());
+    throw;
+  }
 }
 
 void group_field_instruction::destruct_value(value_storage &storage,
@@ -83,9 +106,16 @@ void group_field_instruction::construct_value(value_storage &storage,
                      : static_cast<value_storage *>(
                            alloc->allocate(this->group_content_byte_count()));
 
-  if (construct_subfields)
-    construct_group_subfields(storage.of_group.content_, alloc);
-  else
+  if (construct_subfields) {
+    try {
+      construct_group_subfields(storage.of_group.content_, alloc);
+    } catch (...) {
+      if (fields_storage == nullptr)
+        alloc->deallocate(storage.of_group.content_,
+                          group_content_byte_count());
+      throw;
+    }
+  } else
     memset(reinterpret_cast<char*>(storage.of_group.content_), 0, this->group_content_byte_count());
 }
 
@@ -100,7 +130,13 @@ void group_field_instruction::copy_construct_value(
                           : static_cast<value_storage *>(
                                 alloc->allocate(group_content_byte_count()));
 
-  copy_group_subfields(src.of_group.content_, dest.of_group.content_, alloc);
+  try {
+    copy_group_subfields(src.of_group.content_, dest.of_group.content_, alloc);
+  } catch (...) {
+    if (dest_fields_storage == nullptr)
+      alloc->deallocate(dest.of_group.content_, group_content_byte_count());
+    throw;
+  }
 }
 
 group_field_instruction *
diff --git a/src/mfast/instructions/sequence_instruction.cpp b/src/mfast/instructions/sequence_instruction.cpp
index ca7ef74..7ba6c7f 100644
--- a/src/mfast/instructions/sequence_instruction.cpp
+++ b/src/mfast/instructions/sequence_instruction.cpp
@@ -87,8 +87,14 @@ void sequence_field_instruction::construct_sequence_elements(
     allocator *alloc) const {
   value_storage *elements =
       static_cast<value_storage *>(storage.of_array.content_);
-  for (std::size_t i = start; i < start + length; ++i) {
-    construct_group_subfields(&elements[i * subinstructions_.size()], alloc);
+  std::size_t i = start;
+  try {
+    for (; i < start + length; ++i) {
+      construct_group_subfields(&elements[i * subinstructions_.size()], alloc);
+    }
+  } catch (...) {
+    destruct_sequence_elements(storage, start, i - start, alloc);
+    throw;
   }
 }
 
@@ -113,8 +119,15 @@ void sequence_field_instruction::construct_value(value_storage &storage,
     storage.of_array.content_ = nullptr;
     storage.of_array.capacity_in_bytes_ = allocate_elements(
         storage.of_array.content_, initial_length, element_size, alloc);
-    construct_sequence_elements(
-        storage, 0, storage.of_array.capacity_in_bytes_ / element_size, alloc);
+    try {
+      construct_sequence_elements(
+          storage, 0, storage.of_array.capacity_in_bytes_ / element_size,
+          alloc);
+    } catch (...) {
+      alloc->deallocate(storage.of_array.content_,
+                        storage.of_array.capacity_in_bytes_);
+      throw;
+    }
   } else {
     storage.of_array.content_ = nullptr;
     storage.of_array.capacity_in_bytes_ = 0;
@@ -161,18 +174,27 @@ void sequence_field_instruction::copy_construct_value(const value_storage &src,
     value_storage *dest_elements =
         static_cast<value_storage *>(dest.of_array.content_);
 
-    for (std::size_t i = 0; i < size; ++i) {
-      std::size_t j = i * this->subinstructions_.size();
-      copy_group_subfields(&src_elements[j], &dest_elements[j], alloc);
-    }
-    // we must default construct the extra elements we reserved; otherwise we
-    // may deallocate garbage pointers during destruction.
-    std::size_t unused_count =
-        dest.of_array.capacity_in_bytes_ / element_size - size;
-    if (unused_count > 0) {
-      // std::memset( static_cast<char*>(dest.of_array.content_) + reserve_size,
-      // 0, unused);
-      construct_sequence_elements(dest, size, unused_count, alloc);
+    std::size_t i = 0;
+    try {
+      for (; i < size; ++i) {
+        std::size_t j = i * this->subinstructions_.size();
+        copy_group_subfields(&src_elements[j], &dest_elements[j], alloc);
+      }
+      // we must default construct the extra elements we reserved; otherwise we
+      // may deallocate garbage pointers during destruction.
+      std::size_t unused_count =
+          dest.of_array.capacity_in_bytes_ / element_size - size;
+      if (unused_count > 0) {
+        // std::memset( static_cast<char*>(dest.of_array.content_) +
+        // reserve_size,
+        // 0, unused);
+        construct_sequence_elements(dest, size, unused_count, alloc);
+      }
+    } catch (...) {
+      destruct_sequence_elements(dest, 0, i, alloc);
+      alloc->deallocate(dest.of_array.content_,
+                        dest.of_array.capacity_in_bytes_);
+      throw;
     }
   } else {
     dest.of_array.content_ = nullptr;
diff --git a/src/mfast/instructions/template_instruction.cpp b/src/mfast/instructions/template_instruction.cpp
index acfc75f..aca7590 100644
--- a/src/mfast/instructions/template_instruction.cpp
+++ b/src/mfast/instructions/template_instruction.cpp
@@ -18,7 +18,13 @@ void template_instruction::copy_construct_value(
         alloc->allocate(this->group_content_byte_count()));
   }
   dest.of_group.content_ = dest_fields_storage;
-  copy_group_subfields(src.of_group.content_, dest_fields_storage, alloc);
+  try {
+    copy_group_subfields(src.of_group.content_, dest_fields_storage, alloc);
+  } catch (...) {
+    if (dest.of_group.own_content_)
+      alloc->deallocate(dest_fields_storage, this->group_content_byte_count());
+    throw;
+  }
 }
 
 template_instruction *
diff --git a/src/mfast/instructions/templateref_instruction.cpp b/src/mfast/instructions/templateref_instruction.cpp
index ca9e19e..08534d7 100644
--- a/src/mfast/instructions/templateref_instruction.cpp
+++ b/src/mfast/instructions/templateref_instruction.cpp
@@ -20,19 +20,25 @@ void templateref_instruction::construct_value(value_storage &storage,
 void templateref_instruction::construct_value(
     value_storage &storage, allocator *alloc,
     const template_instruction *from_inst, bool construct_subfields) const {
-  storage.of_templateref.of_instruction.instruction_ = from_inst;
+  // The reference remains unbound when the target cannot be constructed.
+  storage.of_templateref.of_instruction.instruction_ = nullptr;
+  storage.of_templateref.content_ = nullptr;
   if (from_inst) {
-    storage.of_templateref.content_ = static_cast<value_storage *>(
+    value_storage *content = static_cast<value_storage *>(
         alloc->allocate(from_inst->group_content_byte_count()));
 
-    if (construct_subfields)
-      from_inst->construct_group_subfields(storage.of_templateref.content_,
-                                           alloc);
-    else
-       memset(reinterpret_cast<char*>(storage.of_templateref.content_), 0,
-              from_inst->group_content_byte_count());
-  } else {
-    storage.of_templateref.content_ = nullptr;
+    if (construct_subfields) {
+      try {
+        from_inst->construct_group_subfields(content, alloc);
+      } catch (...) {
+        alloc->deallocate(content, from_inst->group_content_byte_count());
+        throw;
+      }
+    } else
+      memset(reinterpret_cast<char *>(content), 0,
+             from_inst->group_content_byte_count());
+    storage.of_templateref.of_instruction.instruction_ = from_inst;
+    storage.of_templateref.content_ = content;
   }
 }
 
@@ -54,15 +60,22 @@ void templateref_instruction::copy_construct_value(const value_storage &src,
                                                    value_storage &dest,
                                                    allocator *alloc,
                                                    value_storage *) const {
-  dest.of_templateref.of_instruction.instruction_ =
+  const template_instruction *inst =
       src.of_templateref.of_instruction.instruction_;
-  if (src.of_templateref.of_instruction.instruction_) {
+  dest.of_templateref.of_instruction.instruction_ = inst;
+  dest.of_templateref.content_ = nullptr;
+  if (inst) {
     dest.of_templateref.content_ = static_cast<value_storage *>(
-        alloc->allocate(dest.of_templateref.of_instruction.instruction_
-                            ->group_content_byte_count()));
+        alloc->allocate(inst->group_content_byte_count()));
 
-    dest.of_templateref.of_instruction.instruction_->copy_group_subfields(
-        src.of_templateref.content_, dest.of_templateref.content_, alloc);
+    try {
+      inst->copy_group_subfields(src.of_templateref.content_,
+                                 dest.of_templateref.content_, alloc);
+    } catch (...) {
+      alloc->deallocate(dest.of_templateref.content_,
+                        inst->group_content_byte_count());
+      throw;
+    }
   }
 }
 
diff --git a/src/mfast/sequence_ref.cpp b/src/mfast/sequence_ref.cpp
index 4242da2..54a1a2a 100644
--- a/src/mfast/sequence_ref.cpp
+++ b/src/mfast/sequence_ref.cpp
@@ -5,6 +5,8 @@
 // See the file license.txt for licensing information.
 #include "mfast/sequence_ref.h"
 #include "mfast/allocator.h"
+#include <algorithm>
+#include <cstring>
 #include <new>
 
 namespace mfast {
@@ -27,24 +29,38 @@ void sequence_mref_helper::reserve(
     if (n > max_capacity / element_size)
       throw std::bad_alloc();
 
-    std::size_t new_capacity =
-        alloc->reallocate(storage->of_array.content_,
-                          storage->of_array.capacity_in_bytes_, reserve_size);
-    if (new_capacity > max_capacity)
-      new_capacity = max_capacity;
+    // The new elements are constructed before the existing ones are moved; so
+    // that nothing is changed when there is not enough memory for them.
+    value_storage new_storage;
+    new_storage.of_array.content_ = nullptr;
+    const std::size_t allocated =
+        alloc->reallocate(new_storage.of_array.content_, 0, reserve_size);
+    const std::size_t new_capacity = (std::min)(allocated, max_capacity);
 
-    std::size_t old_num_elements =
-        storage->of_array.capacity_in_bytes_ / element_size;
-    std::size_t new_num_elements = new_capacity / element_size;
+    const std::size_t old_capacity = storage->of_array.capacity_in_bytes_;
+    const std::size_t old_num_elements = old_capacity / element_size;
+    const std::size_t new_num_elements = new_capacity / element_size;
 
-    instruction->construct_sequence_elements(
-        *storage, old_num_elements, new_num_elements - old_num_elements, alloc);
-    // In the above 3rd parameter, it is incorrect to use
-    // (new_capacity-storage->of_array.capacity_in_bytes_)/element_size.
-    // It would cause differet value when either
-    // storage->of_array.capacity_in_bytes_
-    // or new_capacity is not the multiple of element_size.
+    try {
+      instruction->construct_sequence_elements(
+          new_storage, old_num_elements, new_num_elements - old_num_elements,
+          alloc);
+      // In the above 3rd parameter, it is incorrect to use
+      // (new_capacity-storage->of_array.capacity_in_bytes_)/element_size.
+      // It would cause differet value when either
+      // storage->of_array.capacity_in_bytes_
+      // or new_capacity is not the multiple of element_size.
+    } catch (...) {
+      alloc->deallocate(new_storage.of_array.content_, new_capacity);
+      throw;
+    }
 
+    if (old_capacity) {
+      std::memcpy(new_storage.of_array.content_, storage->of_array.content_,
+                  old_num_elements * element_size);
+      alloc->deallocate(storage->of_array.content_, old_capacity);
+    }
+    storage->of_array.content_ = new_storage.of_array.content_;
     storage->of_array.capacity_in_bytes_ = static_cast<uint32_t>(new_capacity);
   }
 }
-- 
2.43.0


From 1acf1629963ce12b28e4eb4bb7868937177b75f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:02 +0000
Subject: [PATCH 057/119] fix: equality of messages ignored which of their
 fields are present

---
 src/mfast/field_comparator.h | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/mfast/field_comparator.h b/src/mfast/field_comparator.h
index 3749125..0bbc569 100644
--- a/src/mfast/field_comparator.h
+++ b/src/mfast/field_comparator.h
@@ -21,14 +21,15 @@ public:
   static bool compare(const aggregate_cref lhs, const aggregate_cref rhs) {
     if (lhs.num_fields() == rhs.num_fields()) {
       for (std::size_t i = 0; i < lhs.num_fields(); ++i) {
-        if (lhs.instruction()->field_type() !=
-                rhs.instruction()->field_type() ||
-            lhs.present() != rhs.present())
+        const field_cref lhs_field = lhs[i];
+        const field_cref rhs_field = rhs[i];
+        if (lhs_field.field_type() != rhs_field.field_type() ||
+            lhs_field.present() != rhs_field.present())
           return false;
 
-        if (lhs.present()) {
-          field_comparator comparator(rhs[i]);
-          if (!apply_accessor(comparator, lhs[i]))
+        if (lhs_field.present()) {
+          field_comparator comparator(rhs_field);
+          if (!apply_accessor(comparator, lhs_field))
             return false;
         }
       }
@@ -41,6 +42,16 @@ public:
     return compare(lhs, static_cast<aggregate_cref>(rhs_));
   }
 
+  bool visit(const nested_message_cref &lhs, int) const {
+    const nested_message_cref rhs(rhs_);
+    const template_instruction *lhs_target = lhs.target_instruction();
+    const template_instruction *rhs_target = rhs.target_instruction();
+    if (lhs_target == nullptr || rhs_target == nullptr)
+      return lhs_target == rhs_target;
+    return lhs_target->id() == rhs_target->id() &&
+           compare(lhs.target(), rhs.target());
+  }
+
   bool visit(const sequence_cref &lhs, int) const {
     sequence_cref rhs = static_cast<sequence_cref>(rhs_);
     if (lhs.num_fields() == rhs.num_fields() && lhs.size() == rhs.size()) {
@@ -60,8 +71,11 @@ inline bool operator==(const aggregate_cref &lhs, const aggregate_cref &rhs) {
 }
 
 inline bool operator==(const field_cref &lhs, const field_cref &rhs) {
-  if (lhs.instruction()->field_type() != rhs.instruction()->field_type())
+  if (lhs.instruction()->field_type() != rhs.instruction()->field_type() ||
+      lhs.present() != rhs.present())
     return false;
+  if (lhs.absent())
+    return true;
 
   detail::field_comparator comparator(rhs);
   return apply_accessor(comparator, lhs);
-- 
2.43.0


From ae0f0cffe6edc7f57d2b11cae6966b7ceead33c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:20 +0000
Subject: [PATCH 058/119] fix: copying a vector_type object made both own the
 same memory

---
 src/mfast/vector_ref.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 14c8639..bb84e84 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -410,6 +410,20 @@ public:
     instruction_->construct_value(my_storage_, alloc);
   }
 
+  vector_type(const vector_type &other)
+      : alloc_(other.alloc_), instruction_(other.instruction_) {
+    instruction_->copy_construct_value(other.my_storage_, my_storage_, alloc_,
+                                       nullptr);
+  }
+
+  vector_type &operator=(const vector_type &other) {
+    vector_type tmp(other);
+    std::swap(alloc_, tmp.alloc_);
+    std::swap(instruction_, tmp.instruction_);
+    std::swap(my_storage_, tmp.my_storage_);
+    return *this;
+  }
+
   ~vector_type() { instruction_->destruct_value(my_storage_, alloc_); }
   mref_type ref() { return mref_type(alloc_, &my_storage_, instruction_); }
   mref_type mref() { return mref_type(alloc_, &my_storage_, instruction_); }
-- 
2.43.0


From c83f9d5b0e173d9e98bffe8fcd763b3bfd2a3f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:15 +0000
Subject: [PATCH 059/119] fix: group_type objects gave invalid references and
 empty objects could not be copied

---
 src/mfast/composite_type.h | 44 ++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/mfast/composite_type.h b/src/mfast/composite_type.h
index 1fc5d76..fd67253 100644
--- a/src/mfast/composite_type.h
+++ b/src/mfast/composite_type.h
@@ -10,6 +10,26 @@
 #include <stdlib.h>
 
 namespace mfast {
+namespace detail {
+// A reference to a message refers to its fields while a reference to a group
+// refers to the storage of the group itself.
+template <typename CRef> struct composite_storage {
+  static value_storage *of(value_storage &storage) {
+    return storage.of_group.content_;
+  }
+  static const value_storage *of(const value_storage &storage) {
+    return storage.of_group.content_;
+  }
+};
+
+template <> struct composite_storage<group_cref> {
+  static value_storage *of(value_storage &storage) { return &storage; }
+  static const value_storage *of(const value_storage &storage) {
+    return &storage;
+  }
+};
+}
+
 template <typename CRef> class composite_type {
   // #ifdef BOOST_NO_RVALUE_REFERENCES
   //     BOOST_MOVABLE_BUT_NOT_COPYABLE(composite_type)
@@ -123,8 +143,10 @@ inline composite_type<CRef>::composite_type(
     typename composite_type<CRef>::instruction_cptr instruction,
     value_storage *fields_storage)
     : alloc_(alloc), instruction_(instruction) {
-  if (instruction_)
+  if (instruction_) {
     instruction_->construct_value(my_storage_, fields_storage, alloc_);
+    my_storage_.present(true);
+  }
 }
 
 template <typename CRef>
@@ -133,6 +155,7 @@ inline composite_type<CRef>::composite_type(
               typename composite_type<CRef>::instruction_cptr> p)
     : alloc_(p.first), instruction_(p.second) {
   instruction_->construct_value(my_storage_, nullptr, alloc_);
+  my_storage_.present(true);
 }
 
 template <typename CRef>
@@ -146,6 +169,7 @@ inline composite_type<CRef>::composite_type(
       const_cast<value_storage *>(other_fields_storage);
   this->instruction()->copy_construct_value(other_storage, my_storage_, alloc,
                                             fields_storage);
+  my_storage_.present(true);
 }
 
 template <typename CRef> inline composite_type<CRef>::~composite_type() {
@@ -168,13 +192,15 @@ inline composite_type<CRef>::composite_type(const CRef &other,
       const_cast<value_storage *>(other.field_storage(0));
   this->instruction()->copy_construct_value(other_storage, my_storage_, alloc,
                                             nullptr);
+  my_storage_.present(true);
 }
 
 template <typename CRef>
 inline composite_type<CRef>::composite_type(const composite_type &other)
     : alloc_(other.alloc_), instruction_(other.instruction_) {
-  this->instruction()->copy_construct_value(other.my_storage_, my_storage_,
-                                            alloc_, nullptr);
+  if (instruction_)
+    this->instruction()->copy_construct_value(other.my_storage_, my_storage_,
+                                              alloc_, nullptr);
 }
 
 template <typename CRef>
@@ -185,24 +211,28 @@ operator=(const composite_type<CRef> &other) {
 
 template <typename CRef>
 inline typename composite_type<CRef>::mref_type composite_type<CRef>::ref() {
-  return mref_type(alloc_, my_storage_.of_group.content_, instruction_);
+  return mref_type(alloc_, detail::composite_storage<CRef>::of(my_storage_),
+                   instruction_);
 }
 
 template <typename CRef>
 inline typename composite_type<CRef>::mref_type composite_type<CRef>::mref() {
-  return mref_type(alloc_, my_storage_.of_group.content_, instruction_);
+  return mref_type(alloc_, detail::composite_storage<CRef>::of(my_storage_),
+                   instruction_);
 }
 
 template <typename CRef>
 inline typename composite_type<CRef>::cref_type
 composite_type<CRef>::ref() const {
-  return cref_type(my_storage_.of_group.content_, instruction_);
+  return cref_type(detail::composite_storage<CRef>::of(my_storage_),
+                   instruction_);
 }
 
 template <typename CRef>
 inline typename composite_type<CRef>::cref_type
 composite_type<CRef>::cref() const {
-  return cref_type(my_storage_.of_group.content_, instruction_);
+  return cref_type(detail::composite_storage<CRef>::of(my_storage_),
+                   instruction_);
 }
 
 template <typename CRef> inline const char *composite_type<CRef>::name() const {
-- 
2.43.0


From bbac793d075cf361eb8e7f4ce5207c877a70dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 060/119] fix: sequences could not be assigned from references
 or iterators

make_sequence_mref::as(const cref_type &) accessed a protected member of
another class and assign() default constructed an iterator, which is not
possible; neither could be instantiated.
---
 src/mfast/sequence_ref.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mfast/sequence_ref.h b/src/mfast/sequence_ref.h
index 5fba914..2bb84df 100644
--- a/src/mfast/sequence_ref.h
+++ b/src/mfast/sequence_ref.h
@@ -355,9 +355,8 @@ public:
   template <typename RandomAccessIterator>
   void assign(RandomAccessIterator first, RandomAccessIterator last) const {
     resize(std::distance(first, last));
-    RandomAccessIterator itr;
     iterator dest = begin();
-    for (itr = first; itr != last; ++itr, ++dest)
+    for (RandomAccessIterator itr = first; itr != last; ++itr, ++dest)
       dest->as(*itr);
   }
 
@@ -453,9 +452,9 @@ inline void
 make_sequence_mref<ElementType, SequenceTrait, SequenceInstructionType>::as(
     const cref_type &src) const {
   value_storage tmp_storage;
-  this->instruction()->copy_construct_value(*src.storage_, tmp_storage,
-                                            this->alloc_);
-  std::swap(tmp_storage, const_cast<value_storage &>(*this->storage_));
+  this->instruction()->copy_construct_value(
+      *field_cref_core_access::storage_of(src), tmp_storage, this->alloc_);
+  std::swap(tmp_storage, *this->storage());
   this->instruction()->destruct_value(tmp_storage, this->alloc_);
 }
 }
-- 
2.43.0


From 6799b7cd6e8b078be4b2b911730ef7a30bfc7672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 061/119] fix: the distance of sequence iterators was divided
 as unsigned

Moving an iterator backwards and the difference end - begin (computed from a
negative distance) were calculated with unsigned arithmetic; the result was
wrong unless the number of fields of an element is a power of two.
---
 src/mfast/sequence_ref.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mfast/sequence_ref.h b/src/mfast/sequence_ref.h
index 2bb84df..6d51b1a 100644
--- a/src/mfast/sequence_ref.h
+++ b/src/mfast/sequence_ref.h
@@ -114,14 +114,16 @@ private:
 
   void advance(std::ptrdiff_t n) {
     this->content_storage(this->content_storage() +
-                          n * this->element_group_content_byte_count());
+                          n * static_cast<std::ptrdiff_t>(
+                                  this->element_group_content_byte_count()));
   }
 
   void increment() { advance(1); }
   void decrement() { advance(-1); }
-  int distance_to(sequence_iterator const &other) const {
+  std::ptrdiff_t distance_to(sequence_iterator const &other) const {
     return (other.content_storage() - this->content_storage()) /
-           this->element_group_content_byte_count();
+           static_cast<std::ptrdiff_t>(
+               this->element_group_content_byte_count());
   }
 };
 
-- 
2.43.0


From b72c4f6e2da96a4deebcd3a961fd28cea04135df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 062/119] fix: assigning to an element of a sequence left it
 uninitialised

The instruction of an element can be the sequence_field_instruction itself,
whose copy_construct_value() copies a sequence rather than the fields of one
element.
---
 src/mfast/aggregate_ref.h | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/mfast/aggregate_ref.h b/src/mfast/aggregate_ref.h
index 9d03c43..9568bec 100644
--- a/src/mfast/aggregate_ref.h
+++ b/src/mfast/aggregate_ref.h
@@ -355,17 +355,12 @@ void make_aggregate_mref<ConstRef>::as(const ConstRef &other) const {
   value_storage *new_content = reinterpret_cast<value_storage *>(buf + sz);
   // the first chuck for storing the original content
   std::memcpy(orig_content, this->storage_array_, sz);
-  value_storage tmp_storage;
 
-  // the second chunk for construct the new aggregate value
-
-  value_storage other_storage;
-  other_storage.of_group.own_content_ = false;
-  other_storage.of_group.content_ = const_cast<value_storage *>(
-      aggregate_cref_core_access::storage_of(other));
-
-  this->instruction()->copy_construct_value(other_storage, tmp_storage,
-                                            this->alloc_, new_content);
+  // the second chunk for construct the new aggregate value. The subfields are
+  // copied without the virtual copy_construct_value() because the instruction
+  // of a sequence element can be that of the sequence.
+  this->instruction()->copy_group_subfields(
+      aggregate_cref_core_access::storage_of(other), new_content, this->alloc_);
 
   // copy the newly construct aggregate value to the old memory chunk
   std::memcpy(const_cast<value_storage *>(this->storage_array_), new_content,
-- 
2.43.0


From 2d3ab1c5adb3441010fc98bb7b4bb154b484d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 063/119] fix: clear() had no effect on mandatory sequences

sequence_field_instruction sets the type of its field after the base class
has determined that it is not an array.
---
 src/mfast/instructions/sequence_instruction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfast/instructions/sequence_instruction.cpp b/src/mfast/instructions/sequence_instruction.cpp
index 7ba6c7f..7d16d2e 100644
--- a/src/mfast/instructions/sequence_instruction.cpp
+++ b/src/mfast/instructions/sequence_instruction.cpp
@@ -24,6 +24,7 @@ sequence_field_instruction::sequence_field_instruction(
       sequence_length_instruction_(sequence_length_instruction),
       element_instruction_(element_instruction) {
   field_type_ = field_type_sequence;
+  is_array_ = true;
   has_pmap_bit_ = sequence_length_instruction
                       ? sequence_length_instruction->pmap_size()
                       : 0;
-- 
2.43.0


From a9aa6481d675d9a85129622786450d2417455bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:11 +0000
Subject: [PATCH 064/119] fix: decimals with individual operators could not be
 assigned through field_mref

Their field type is field_type_exponent, for which field_mref::as() threw
incompatible_type_conversion_error.
---
 src/mfast/field_mref.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mfast/field_mref.h b/src/mfast/field_mref.h
index d33dce8..ed3e705 100644
--- a/src/mfast/field_mref.h
+++ b/src/mfast/field_mref.h
@@ -73,6 +73,7 @@ template <typename T> void field_mref::as(T value) {
     static_cast<uint64_mref>(*this).as(static_cast<uint64_t>(value));
     break;
   case field_type_decimal:
+  case field_type_exponent: // a decimal with individual operators
     static_cast<decimal_mref>(*this).as(value);
     break;
   default:
@@ -96,7 +97,8 @@ inline void field_mref::as(const char *value) {
 }
 
 inline void field_mref::as(const decimal &value) {
-  if (this->instruction()->field_type() == field_type_decimal)
+  if (this->instruction()->field_type() == field_type_decimal ||
+      this->instruction()->field_type() == field_type_exponent)
     static_cast<decimal_mref>(*this).as(value);
   else
     BOOST_THROW_EXCEPTION(incompatible_type_conversion_error(
-- 
2.43.0


From ab7da435d20500026edb32d17fce8beda111e19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:03 +0000
Subject: [PATCH 065/119] fix: strings with embedded NULs were truncated in
 JSON

---
 src/mfast/json/json_encode.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index b563ee3..8afd2e4 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -9,6 +9,7 @@
 #include "../nested_message_ref.h"
 #include <boost/io/ios_state.hpp>
 #include <cstdio>
+#include <cstring>
 #ifdef _MSC_VER // someday someone at microsoft will read the C++11 standard.
 #define snprintf _snprintf
 #else // _MSCVER
@@ -25,11 +26,10 @@ struct quoted_string {
   const char *str_;
 };
 
-std::ostream &operator<<(std::ostream &os, quoted_string str) {
+std::ostream &write_quoted(std::ostream &os, const char *ptr, std::size_t len) {
   os.put('"');
-  const char *ptr = str.str_;
-  char c;
-  while ((c = *ptr++) != '\0') {
+  for (const char *last = ptr + len; ptr != last; ++ptr) {
+    char c = *ptr;
     // According to ECMA-404, the control charanter (U+0000 to U+001F) must be
     // escaped
     if ((c & 0xE0) == 0) {
@@ -54,6 +54,10 @@ std::ostream &operator<<(std::ostream &os, quoted_string str) {
   return os;
 }
 
+std::ostream &operator<<(std::ostream &os, quoted_string str) {
+  return write_quoted(os, str.str_, std::strlen(str.str_));
+}
+
 class json_visitor {
 protected:
   std::ostream &strm_;
@@ -86,7 +90,8 @@ public:
   }
 
   template <typename Char> void visit(const mfast::string_cref<Char> &ref) {
-    strm_ << separator_ << quoted_string(ref.c_str());
+    strm_ << separator_;
+    write_quoted(strm_, ref.data(), ref.size());
   }
 
   void visit(const mfast::byte_vector_cref &ref) {
-- 
2.43.0


From 7f09cb7feb266ced2fe4920640af64959acea96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:03 +0000
Subject: [PATCH 066/119] fix: bytes below 0x10 lost their leading zero in JSON

---
 src/mfast/json/json_encode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index 8afd2e4..7122c71 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -106,13 +106,13 @@ public:
       // json doesn't have byte vector, treat it as hex string now
       strm_ << separator_ << "\"";
       boost::io::ios_flags_saver ifs(strm_);
-      strm_ << std::hex << std::setfill('0') << std::setw(2);
+      strm_ << std::hex << std::setfill('0');
 
       for (std::size_t i = 0; i < ref.size(); ++i) {
         // if the size is 16, we treat it as a UUID
         if (ref.size() == 16 && (i == 4 || i == 6 || i == 8 || i == 10))
           strm_ << '-';
-        strm_ << (0xFF & (int)ref[i]);
+        strm_ << std::setw(2) << (0xFF & (int)ref[i]);
       }
       strm_ << "\"" << std::setfill(' ');
     }
-- 
2.43.0


From c2791d21499f55306d2bad73aa227eac022a601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:03 +0000
Subject: [PATCH 067/119] fix: JSON objects in byte vectors were not separated
 in arrays

---
 src/mfast/json/json_encode.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index 7122c71..c1a0453 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -100,6 +100,7 @@ public:
       // json encoded object already, just write it as it is without any
       // processing.
 
+      strm_ << separator_;
       strm_.rdbuf()->sputn(reinterpret_cast<const char *>(ref.data()),
                            ref.size());
     } else {
-- 
2.43.0


From 5433929cd4ec285b7537dd36955fbb2e00e39c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:39 +0000
Subject: [PATCH 068/119] fix: absent elements of unnamed sequences were
 printed as values in JSON

---
 src/mfast/json/json_decode.cpp | 34 ++++++++++++++++++++++------------
 src/mfast/json/json_encode.cpp |  7 +++++--
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 07a1db8..8fdbc49 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -421,6 +421,21 @@ struct decode_visitor {
     BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect ] or ,"));
   }
 
+  // consume the next value if it is null
+  bool read_null() {
+    strm_ >> std::ws;
+    if (!strm_.good() || strm_.peek() != 'n')
+      return false;
+
+    char buf[5];
+    strm_ >> std::noskipws >> std::setw(5) >> buf >> std::skipws;
+    if (strncmp(buf, "null", 4) != 0) {
+      strm_.setstate(std::ios::failbit);
+      BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect null", buf));
+    }
+    return true;
+  }
+
   // return false only when the parsed result is empty or error
   bool visit_impl(const mfast::aggregate_mref &ref);
 
@@ -474,15 +489,7 @@ bool decode_visitor::visit_impl(const mfast::aggregate_mref &ref) {
       int index = ref.field_index_with_name(key.c_str());
       if (index != -1) {
         // we need to check if the value is null
-        strm_ >> std::ws;
-        if (strm_.good() && strm_.peek() == 'n') {
-          char buf[5];
-          strm_ >> std::noskipws >> std::setw(5) >> buf >> std::skipws;
-          if (strncmp(buf, "null", 4) != 0) {
-            strm_.setstate(std::ios::failbit);
-            BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect null", buf));
-          }
-        } else
+        if (!read_null())
           apply_mutator(*this, ref[index]);
       } else {
         // the field is unkown to us,
@@ -521,9 +528,12 @@ void decode_visitor::visit(const mfast::sequence_mref &ref, int) {
   do {
     ref.resize(i + 1);
     sequence_element_mref element = ref[i++];
-    if (ref.element_unnamed())
-      apply_mutator(*this, element[0]);
-    else
+    if (ref.element_unnamed()) {
+      if (!read_null())
+        apply_mutator(*this, element[0]);
+      else
+        element[0].omit();
+    } else
       this->visit_impl(element);
 
     strm_ >> std::skipws >> c;
diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index c1a0453..e738c3b 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -169,8 +169,11 @@ public:
 
   void visit(const mfast::sequence_element_cref &ref, int) {
     if (ref.element_unnamed()) {
-      apply_accessor(*this, ref[0]);
-      ;
+      field_cref elem = ref[0];
+      if (elem.present())
+        apply_accessor(*this, elem);
+      else
+        strm_ << separator_ << "null";
     } else {
       this->visit(mfast::aggregate_cref(ref), 0);
     }
-- 
2.43.0


From 73131a275292b8000b04077ad4ab14c6c235c8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:39 +0000
Subject: [PATCH 069/119] fix: empty JSON arrays made optional sequences and
 vectors absent

---
 src/mfast/json/json_decode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 8fdbc49..61bc2d8 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -398,7 +398,7 @@ struct decode_visitor {
   }
 
   template <typename IntType> void visit(int_vector_mref<IntType> &ref) {
-    ref.clear();
+    ref.resize(0);
     if (!parse_array_preamble(strm_))
       return;
 
@@ -518,7 +518,7 @@ bool decode_visitor::visit_impl(const mfast::aggregate_mref &ref) {
 }
 
 void decode_visitor::visit(const mfast::sequence_mref &ref, int) {
-  ref.clear();
+  ref.resize(0);
   if (!parse_array_preamble(strm_))
     return;
 
-- 
2.43.0


From 58304fcd6fb5c9f900f1cda6a9747281946ad897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:39 +0000
Subject: [PATCH 070/119] fix: truncated JSON arrays were accepted

---
 src/mfast/json/json_decode.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 61bc2d8..93b906f 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -538,11 +538,9 @@ void decode_visitor::visit(const mfast::sequence_mref &ref, int) {
 
     strm_ >> std::skipws >> c;
 
-    if (!strm_.good())
-      return;
-  } while (c == ',');
+  } while (strm_.good() && c == ',');
 
-  if (c == ']')
+  if (strm_.good() && c == ']')
     return;
   strm_.setstate(std::ios::failbit);
   BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect ]", c));
-- 
2.43.0


From 798bbac93fd5105a8b9d005ac33a5921d65438e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:39 +0000
Subject: [PATCH 071/119] fix: JSON objects were appended to the old content of
 byte vectors

---
 src/mfast/json/json_decode.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 93b906f..ad43cfe 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -378,6 +378,7 @@ struct decode_visitor {
       char c = 0;
       strm_ >> std::skipws >> c;
       if (strm_.good() && c == '{') {
+        ref.resize(0);
         ref.push_back(c);
         if (skip_matching(strm_, c, &ref)) {
           return;
-- 
2.43.0


From 8a95c957acb616b6560d15ca74d8330f44a22b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:39 +0000
Subject: [PATCH 072/119] fix: the JSON value null was rejected for objects

---
 src/mfast/json/json_decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index ad43cfe..1c036fd 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -510,7 +510,7 @@ bool decode_visitor::visit_impl(const mfast::aggregate_mref &ref) {
   } else if (c == 'n') {
     // check if the result is null
     char buf[4];
-    strm_ >> std::noskipws >> std::setw(3) >> buf >> std::skipws;
+    strm_ >> std::noskipws >> std::setw(4) >> buf >> std::skipws;
     if (strncmp(buf, "ull", 3) == 0)
       return true;
   }
-- 
2.43.0


From ad301c4c0aebc5f6661995bfb901bf4f75ca7339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:39 +0000
Subject: [PATCH 073/119] fix: skipping JSON numbers failed when they exceeded
 the range of double

---
 src/mfast/json/json_decode.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 1c036fd..81a8104 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -271,11 +271,14 @@ bool skip_value(std::istream &strm) {
     strm.get(rest, 5);
     if (strcmp(rest, "alse") == 0)
       return true;
-  } else if (c1 == '-' || isdigit(c1)) {
+  } else if (c1 == '-' || (c1 >= '0' && c1 <= '9')) {
     // skip number
-    strm.putback(c1);
-    double d;
-    strm >> d;
+    int c = strm.peek();
+    while ((c >= '0' && c <= '9') || c == '-' || c == '+' || c == '.' ||
+           c == 'e' || c == 'E') {
+      strm.get();
+      c = strm.peek();
+    }
     return strm.good();
   }
   strm.setstate(std::ios::failbit);
-- 
2.43.0


From 2e20c1794c59193ba4554be185aed9b49e9ecbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:39 +0000
Subject: [PATCH 074/119] fix: the byte 0xFF ended JSON strings prematurely

---
 src/mfast/json/json_decode.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 81a8104..032908a 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -97,11 +97,13 @@ bool get_quoted_string(std::istream &strm, std::string *pstr,
                        bool first_quote_extracted = false) {
   std::streambuf *buf = strm.rdbuf();
 
-  char c = 0;
+  int c = 0;
   if (!first_quote_extracted) {
     // make sure the first non-whitespace character is a quote
 
-    strm >> std::skipws >> c;
+    char first_char = 0;
+    strm >> std::skipws >> first_char;
+    c = first_char;
 
     if (c != '"') {
       strm.setstate(std::ios::failbit);
@@ -123,10 +125,10 @@ bool get_quoted_string(std::istream &strm, std::string *pstr,
   do {
     c = buf->sbumpc();
 
-    if (pref)
-      pref->push_back(c);
-
     if (c != EOF) {
+      if (pref)
+        pref->push_back(static_cast<unsigned char>(c));
+
       if (!escaped) {
         if (c == '\\') {
           escaped = true;
@@ -138,7 +140,7 @@ bool get_quoted_string(std::istream &strm, std::string *pstr,
         // escape mode
         const char *escapables = "\b\t\n\f\r\"/\\";
         const char *orig = "btnfr\"/\\";
-        const char *pch = strchr(orig, c);
+        const char *pch = c != 0 ? strchr(orig, c) : nullptr;
         if (pch != nullptr) {
           c = escapables[pch - orig];
           escaped = false;
-- 
2.43.0


From 8d3d878ca5eb57da2e03cea7441384b87fe64ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:39 +0000
Subject: [PATCH 075/119] fix: negative JSON numbers were accepted for unsigned
 integers

---
 src/mfast/json/json_decode.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 032908a..6bc1ad5 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -311,9 +311,18 @@ struct decode_visitor {
   decode_visitor(std::istream &strm, unsigned json_object_tag_mask)
       : strm_(strm), json_object_tag_mask_(json_object_tag_mask) {}
 
+  // unsigned numbers must not be negative: istream would read -1 as the
+  // largest value
+  template <typename ValueType> bool read_sign() {
+    strm_ >> std::skipws >> std::ws;
+    return std::is_signed<ValueType>::value || strm_.peek() != '-';
+  }
+
   template <typename NumericTypeMref> void visit(const NumericTypeMref &ref) {
     typedef typename NumericTypeMref::value_type value_type;
     value_type value;
+    if (!read_sign<value_type>())
+      strm_.setstate(std::ios::failbit);
     if (strm_ >> value, strm_.good())
       ref.as(value);
     else
@@ -414,6 +423,8 @@ struct decode_visitor {
     do {
       ref.resize(i + 1);
 
+      if (!read_sign<IntType>())
+        strm_.setstate(std::ios::failbit);
       strm_ >> ref[i] >> std::skipws >> c;
 
       if (!strm_.good())
-- 
2.43.0


From 1169f89ffaa543a69bac90c94156969c64e20878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:39 +0000
Subject: [PATCH 076/119] fix: booleans were read from an uninitialised
 character at the end of JSON text

---
 src/mfast/json/json_decode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 6bc1ad5..0de5661 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -331,8 +331,8 @@ struct decode_visitor {
 
   void visit(const enum_mref &ref) {
     if (ref.is_boolean()) {
-      char c1;
-      char rest[5];
+      char c1 = 0;
+      char rest[5] = {0};
 
       strm_ >> std::skipws >> c1;
 
-- 
2.43.0


From bc1ffcd69bc231471590a56e9cc6e08108299e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:39 +0000
Subject: [PATCH 077/119] fix: JSON member names were compared up to their
 first NUL only

---
 src/mfast/json/json_decode.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 0de5661..6778935 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -503,7 +503,9 @@ bool decode_visitor::visit_impl(const mfast::aggregate_mref &ref) {
         BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect :", c));
       }
 
-      int index = ref.field_index_with_name(key.c_str());
+      int index = key.find('\0') == std::string::npos
+                      ? ref.field_index_with_name(key.c_str())
+                      : -1;
       if (index != -1) {
         // we need to check if the value is null
         if (!read_null())
-- 
2.43.0


From d5a5ef3b8ab22a2bfe165a62691ccc1404b8f722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:18 +0000
Subject: [PATCH 078/119] fix: only the last element of integer vectors was
 read from JSON

---
 src/mfast/json/json_decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 6778935..96ae5d2 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -425,7 +425,7 @@ struct decode_visitor {
 
       if (!read_sign<IntType>())
         strm_.setstate(std::ios::failbit);
-      strm_ >> ref[i] >> std::skipws >> c;
+      strm_ >> ref[i++] >> std::skipws >> c;
 
       if (!strm_.good())
         BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect integer"));
-- 
2.43.0


From 45bd0d7160122336f376f0e491aebee907a478d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:09 +0000
Subject: [PATCH 079/119] fix: normalizing decimals overflowed the mantissa or
 the exponent

---
 src/mfast/decimal_ref.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/mfast/decimal_ref.h b/src/mfast/decimal_ref.h
index b6fc667..c7f3df8 100644
--- a/src/mfast/decimal_ref.h
+++ b/src/mfast/decimal_ref.h
@@ -314,7 +314,8 @@ public:
 
   void normalize() const {
     if (!has_const_exponent()) {
-      while (mantissa() != 0 && mantissa() % 10 == 0) {
+      while (mantissa() != 0 && mantissa() % 10 == 0 &&
+             exponent() < (std::numeric_limits<int16_t>::max)()) {
         this->storage()->of_decimal.mantissa_ /= 10;
         this->storage()->of_decimal.exponent_ += 1;
       }
@@ -327,18 +328,26 @@ public:
 
       int16_t fixed_exponent =
           instruction()->initial_value().of_decimal.exponent_;
-      int16_t exponent_diff = exponent() - fixed_exponent;
-      for (; exponent_diff > 0; --exponent_diff) {
+      int exponent_diff = exponent() - fixed_exponent;
+      this->storage()->of_decimal.exponent_ = fixed_exponent;
+      for (; exponent_diff > 0 && mantissa() != 0; --exponent_diff) {
+        if (mantissa() > (std::numeric_limits<int64_t>::max)() / 10 ||
+            mantissa() < (std::numeric_limits<int64_t>::min)() / 10)
+          throw_out_of_range();
         this->storage()->of_decimal.mantissa_ *= 10;
       }
-      for (; exponent_diff < 0; ++exponent_diff) {
+      for (; exponent_diff < 0 && mantissa() != 0; ++exponent_diff) {
         this->storage()->of_decimal.mantissa_ /= 10;
       }
-      this->storage()->of_decimal.exponent_ = fixed_exponent;
     }
   }
 
 private:
+  static void throw_out_of_range() {
+    BOOST_THROW_EXCEPTION(
+        std::range_error("the value does not fit in the decimal field"));
+  }
+
   void as_i(decimal d) const
 #ifndef _MSC_VER
   {
-- 
2.43.0


From e56172ae36903c2d2d64657bdbb1a72d91beefc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:09 +0000
Subject: [PATCH 080/119] fix: unsigned integers beyond the range of the
 mantissa became negative decimals

---
 src/mfast/decimal_ref.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mfast/decimal_ref.h b/src/mfast/decimal_ref.h
index c7f3df8..000ac95 100644
--- a/src/mfast/decimal_ref.h
+++ b/src/mfast/decimal_ref.h
@@ -270,6 +270,11 @@ public:
     return static_cast<int16_t>(this->storage()->of_decimal.exponent_);
   }
   template <typename T> enable_if_t<std::is_integral<T>::value> as(T v) {
+    if (v > 0 && static_cast<uint64_t>(v) >
+                     static_cast<uint64_t>(
+                         (std::numeric_limits<int64_t>::max)()))
+      throw_out_of_range();
+
     this->storage()->of_decimal.mantissa_ = v;
     this->storage()->of_decimal.exponent_ = 0;
 
-- 
2.43.0


From 1e509cec76b2de9b895ebc9a3ff5d7fc9b8aef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:09 +0000
Subject: [PATCH 081/119] fix: decimals with a constant exponent took over the
 exponent they were assigned

---
 src/mfast/decimal_ref.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfast/decimal_ref.h b/src/mfast/decimal_ref.h
index 000ac95..f9cecb3 100644
--- a/src/mfast/decimal_ref.h
+++ b/src/mfast/decimal_ref.h
@@ -293,6 +293,8 @@ public:
     this->storage()->of_decimal.exponent_ = exp;
 
     this->storage()->present(1);
+    if (has_const_exponent())
+      normalize();
   }
 
   void set_mantissa(int64_t v) const {
-- 
2.43.0


From 299dac6b96495195999af249d87c1e7d8d1a6d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:09 +0000
Subject: [PATCH 082/119] fix: assigning multiprecision decimals lost the 19th
 digit or wrapped around

---
 src/mfast/decimal_ref.h | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/mfast/decimal_ref.h b/src/mfast/decimal_ref.h
index f9cecb3..d9b44c7 100644
--- a/src/mfast/decimal_ref.h
+++ b/src/mfast/decimal_ref.h
@@ -355,6 +355,11 @@ private:
         std::range_error("the value does not fit in the decimal field"));
   }
 
+  static bool fits_in_mantissa(const decimal &d) {
+    return d <= decimal((std::numeric_limits<int64_t>::max)()) &&
+           d >= decimal((std::numeric_limits<int64_t>::min)());
+  }
+
   void as_i(decimal d) const
 #ifndef _MSC_VER
   {
@@ -371,20 +376,32 @@ private:
     double m;
     int32_t exp;
     if (!has_const_exponent()) {
+      if (!d.backend().isfinite())
+        throw_out_of_range();
       d.backend().extract_parts(m, exp);
-      d *= decimal(decimal_backend(1.0, 17 - exp));
-      // Don't be distract by the method name -- extract_unsigned_long_long()
-      // the returned value is signed
+      // values of 19 digits are kept if they fit exactly
+      int digits = 18;
+      decimal scaled = d * decimal(decimal_backend(1.0, digits - exp));
+      if (!fits_in_mantissa(scaled) || trunc(scaled) != scaled) {
+        digits = 17;
+        scaled = d * decimal(decimal_backend(1.0, digits - exp));
+      }
+      if (exp - digits > (std::numeric_limits<int16_t>::max)() ||
+          exp - digits < (std::numeric_limits<int16_t>::min)())
+        throw_out_of_range();
       this->storage()->of_decimal.mantissa_ =
-          d.backend().extract_unsigned_long_long();
-      this->storage()->of_decimal.exponent_ = exp - 17;
+          scaled.backend().extract_signed_long_long();
+      this->storage()->of_decimal.exponent_ =
+          static_cast<int16_t>(exp - digits);
       normalize();
     } else {
       const int16_t const_exp =
           instruction()->initial_value().of_decimal.exponent_;
       d *= decimal(decimal_backend(1.0, -1 * const_exp));
+      if (!d.backend().isfinite() || !fits_in_mantissa(d))
+        throw_out_of_range();
       this->storage()->of_decimal.mantissa_ =
-          d.backend().extract_unsigned_long_long();
+          d.backend().extract_signed_long_long();
       this->storage()->of_decimal.exponent_ = const_exp;
     }
     this->storage()->present(1);
-- 
2.43.0


From ef3e3a59e63901071cfcd953648f00c5fff941f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:56 +0000
Subject: [PATCH 083/119] fix: text following a number was ignored when
 assigned to decimals

---
 src/mfast/decimal_ref.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mfast/decimal_ref.h b/src/mfast/decimal_ref.h
index d9b44c7..f48880c 100644
--- a/src/mfast/decimal_ref.h
+++ b/src/mfast/decimal_ref.h
@@ -411,14 +411,19 @@ private:
     typedef boost::iostreams::stream<boost::iostreams::array_source>
         array_stream;
     array_stream is(decimal_str.data(), decimal_str.size());
-    is >> *reinterpret_cast<decimal_value_storage *>(this->storage());
+    decimal_value_storage parsed;
+    if (is >> parsed && !is.eof())
+      is >> std::ws;
 
-    if (!is) {
+    if (!is.eof() || is.fail()) {
       std::string msg(decimal_str.data(), decimal_str.size());
       msg += " is not a decimal value";
       BOOST_THROW_EXCEPTION(std::runtime_error(msg));
     }
 
+    this->storage()->of_decimal.mantissa_ = parsed.mantissa();
+    this->storage()->of_decimal.exponent_ = parsed.exponent();
+    this->storage()->present(1);
     normalize();
   }
 
-- 
2.43.0


From fba42424ca8bc1b3c3bd2d9a6643efa02519e031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:56 +0000
Subject: [PATCH 084/119] fix: negative initial values of unsigned integers
 wrapped around

---
 src/mfast/xml_parser/field_op.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mfast/xml_parser/field_op.h b/src/mfast/xml_parser/field_op.h
index e258f15..3600544 100644
--- a/src/mfast/xml_parser/field_op.h
+++ b/src/mfast/xml_parser/field_op.h
@@ -62,6 +62,13 @@ public:
   static const XMLElement *find_field_op_element(const XMLElement &element);
 
 private:
+  // lexical_cast accepts negative numbers for unsigned types and wraps them
+  template <typename T> static T unsigned_cast(const char *str) {
+    if (*str == '-')
+      BOOST_THROW_EXCEPTION(boost::bad_lexical_cast());
+    return boost::lexical_cast<T>(str);
+  }
+
   void set_init_value(const char *init_value_str,
                       const int32_field_instruction *) {
     if (init_value_str) {
@@ -74,7 +81,7 @@ private:
                       const uint32_field_instruction *) {
     if (init_value_str) {
       initial_value_.present(true);
-      initial_value_.set(boost::lexical_cast<uint32_t>(init_value_str));
+      initial_value_.set(unsigned_cast<uint32_t>(init_value_str));
     }
   }
 
@@ -90,7 +97,7 @@ private:
                       const uint64_field_instruction *) {
     if (init_value_str) {
       initial_value_.present(true);
-      initial_value_.set(boost::lexical_cast<uint64_t>(init_value_str));
+      initial_value_.set(unsigned_cast<uint64_t>(init_value_str));
     }
   }
 
-- 
2.43.0


From 947fd7c3c3b89116addd80d944e09a9d0c862f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:32 +0000
Subject: [PATCH 085/119] fix: normalizing decimals raised the exponent beyond
 the limit of FAST

---
 src/mfast/decimal_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/decimal_ref.h b/src/mfast/decimal_ref.h
index f48880c..f381b71 100644
--- a/src/mfast/decimal_ref.h
+++ b/src/mfast/decimal_ref.h
@@ -322,7 +322,7 @@ public:
   void normalize() const {
     if (!has_const_exponent()) {
       while (mantissa() != 0 && mantissa() % 10 == 0 &&
-             exponent() < (std::numeric_limits<int16_t>::max)()) {
+             exponent() < 63) { // the largest exponent FAST can transmit
         this->storage()->of_decimal.mantissa_ /= 10;
         this->storage()->of_decimal.exponent_ += 1;
       }
-- 
2.43.0


From cdf2674d8d063dc11a4f7116fcfda984b03203b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:27 +0000
Subject: [PATCH 086/119] fix: blanks were accepted inside the text of decimals

---
 src/mfast/value_storage.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mfast/value_storage.cpp b/src/mfast/value_storage.cpp
index f81edbf..b23bf27 100644
--- a/src/mfast/value_storage.cpp
+++ b/src/mfast/value_storage.cpp
@@ -73,8 +73,12 @@ std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
   exponent += zeros;
 
   if (has_digits && (c == 'e' || c == 'E')) {
-    sbuf->sbumpc();
+    c = sbuf->snextc();
     int16_t exp;
+    if (c != '-' && c != '+' && (c < '0' || c > '9')) {
+      strm.setstate(std::ios_base::failbit);
+      return strm;
+    }
     if (!(strm >> exp)) {
       return strm;
     }
-- 
2.43.0


From 0aeb49b3cf13dd7e3cf04a8f4cc9e32c5bb17123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:45 +0000
Subject: [PATCH 087/119] fix: negative zero was rejected for unsigned integers

---
 src/mfast/json/json_decode.cpp  | 16 ++++++++--------
 src/mfast/xml_parser/field_op.h |  5 +++--
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 96ae5d2..774d13c 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -313,17 +313,18 @@ struct decode_visitor {
 
   // unsigned numbers must not be negative: istream would read -1 as the
   // largest value
-  template <typename ValueType> bool read_sign() {
+  template <typename ValueType> void read_number(ValueType &value) {
     strm_ >> std::skipws >> std::ws;
-    return std::is_signed<ValueType>::value || strm_.peek() != '-';
+    const bool negative = strm_.peek() == '-';
+    strm_ >> value;
+    if (negative && !std::is_signed<ValueType>::value && value != 0)
+      strm_.setstate(std::ios::failbit);
   }
 
   template <typename NumericTypeMref> void visit(const NumericTypeMref &ref) {
     typedef typename NumericTypeMref::value_type value_type;
     value_type value;
-    if (!read_sign<value_type>())
-      strm_.setstate(std::ios::failbit);
-    if (strm_ >> value, strm_.good())
+    if (read_number(value), strm_.good())
       ref.as(value);
     else
       BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect number value"));
@@ -423,9 +424,8 @@ struct decode_visitor {
     do {
       ref.resize(i + 1);
 
-      if (!read_sign<IntType>())
-        strm_.setstate(std::ios::failbit);
-      strm_ >> ref[i++] >> std::skipws >> c;
+      read_number(ref[i++]);
+      strm_ >> std::skipws >> c;
 
       if (!strm_.good())
         BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect integer"));
diff --git a/src/mfast/xml_parser/field_op.h b/src/mfast/xml_parser/field_op.h
index 3600544..d037a74 100644
--- a/src/mfast/xml_parser/field_op.h
+++ b/src/mfast/xml_parser/field_op.h
@@ -64,9 +64,10 @@ public:
 private:
   // lexical_cast accepts negative numbers for unsigned types and wraps them
   template <typename T> static T unsigned_cast(const char *str) {
-    if (*str == '-')
+    const T value = boost::lexical_cast<T>(str);
+    if (*str == '-' && value != 0)
       BOOST_THROW_EXCEPTION(boost::bad_lexical_cast());
-    return boost::lexical_cast<T>(str);
+    return value;
   }
 
   void set_init_value(const char *init_value_str,
-- 
2.43.0


From cc9fbadc5925ec4473b75ba81e7345c943074074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:56 +0000
Subject: [PATCH 088/119] fix: groups and sequences without fields crashed the
 template loader

---
 src/mfast/xml_parser/field_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 166219b..eb56d61 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -388,7 +388,7 @@ instructions_view_t field_builder::build_subfields() {
 
 const group_field_instruction *field_builder::get_sole_templateref() {
   const XMLElement *child = content_element_->FirstChildElement();
-  if (strcmp(child->Name(), "templateRef") == 0 &&
+  if (child && strcmp(child->Name(), "templateRef") == 0 &&
       child->NextSibling() == nullptr) {
     const char *target_name = child->Attribute("name", nullptr);
     if (target_name) {
-- 
2.43.0


From f0d622ec6304336ff9e80941248eb42ed7ed0584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:56 +0000
Subject: [PATCH 089/119] fix: field operators inside of type elements were
 ignored

---
 src/mfast/xml_parser/field_builder.cpp | 16 +++++++++++-----
 src/mfast/xml_parser/field_builder.h   |  1 +
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index eb56d61..bb253b0 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -156,9 +156,15 @@ void field_builder::build() {
   }
 }
 
+// the operator is a child of either the field element or the type inside it
+const XMLElement &field_builder::op_element() const {
+  return field_op::find_field_op_element(element_) ? element_
+                                                   : *content_element_;
+}
+
 template <typename IntType>
 void field_builder::build_integer(const int_field_instruction<IntType> *inst) {
-  field_op fop(inst, &element_, alloc());
+  field_op fop(inst, &op_element(), alloc());
 
   field_instruction *instruction = new (alloc()) int_field_instruction<IntType>(
       fop.op_, get_presence(inst), get_id(inst), get_name(alloc()),
@@ -220,7 +226,7 @@ void field_builder::visit(const decimal_field_instruction *inst, void *) {
         decimal_value_storage(exponent_op.initial_value_), parse_tag(inst));
   } else {
 
-    field_op decimal_op(inst, &element_, alloc());
+    field_op decimal_op(inst, &op_element(), alloc());
 
     instruction = new (alloc()) decimal_field_instruction(
         decimal_op.op_, get_presence(inst), get_id(inst), get_name(alloc()),
@@ -232,7 +238,7 @@ void field_builder::visit(const decimal_field_instruction *inst, void *) {
 }
 
 void field_builder::visit(const ascii_field_instruction *inst, void *) {
-  field_op fop(inst, &element_, alloc());
+  field_op fop(inst, &op_element(), alloc());
   field_instruction *instruction = new (alloc()) ascii_field_instruction(
       fop.op_, get_presence(inst), get_id(inst), get_name(alloc()),
       get_ns(inst, alloc()), fop.context_,
@@ -241,7 +247,7 @@ void field_builder::visit(const ascii_field_instruction *inst, void *) {
 }
 
 void field_builder::visit(const unicode_field_instruction *inst, void *) {
-  field_op fop(inst, &element_, alloc());
+  field_op fop(inst, &op_element(), alloc());
 
   const XMLAttribute *length_attributes = nullptr;
   const XMLElement *length_element = element_.FirstChildElement("length");
@@ -262,7 +268,7 @@ void field_builder::visit(const unicode_field_instruction *inst, void *) {
 }
 
 void field_builder::visit(const byte_vector_field_instruction *inst, void *) {
-  field_op fop(inst, &element_, alloc());
+  field_op fop(inst, &op_element(), alloc());
 
   const XMLAttribute *length_attributes = nullptr;
   const XMLElement *length_element = element_.FirstChildElement("length");
diff --git a/src/mfast/xml_parser/field_builder.h b/src/mfast/xml_parser/field_builder.h
index d14e444..c8a3a7c 100644
--- a/src/mfast/xml_parser/field_builder.h
+++ b/src/mfast/xml_parser/field_builder.h
@@ -96,6 +96,7 @@ protected:
   virtual void visit(const enum_field_instruction *, void *) override;
   virtual void visit(const set_field_instruction *, void *) override;
 
+  const XMLElement &op_element() const;
   instructions_view_t build_subfields();
   const group_field_instruction *get_sole_templateref();
   const uint32_field_instruction *
-- 
2.43.0


From 2e1947a29d156d8e3fdc9aa8c073f0a3ba58d0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:13 +0000
Subject: [PATCH 090/119] fix: the parts of decimals and the lengths of vectors
 inside of type elements were ignored

---
 src/mfast/xml_parser/field_builder.cpp | 13 +++++++++----
 src/mfast/xml_parser/field_builder.h   |  1 +
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index bb253b0..e72a4b9 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -162,6 +162,11 @@ const XMLElement &field_builder::op_element() const {
                                                    : *content_element_;
 }
 
+const XMLElement *field_builder::type_child_element(const char *name) const {
+  const XMLElement *child = element_.FirstChildElement(name);
+  return child ? child : content_element_->FirstChildElement(name);
+}
+
 template <typename IntType>
 void field_builder::build_integer(const int_field_instruction<IntType> *inst) {
   field_op fop(inst, &op_element(), alloc());
@@ -193,8 +198,8 @@ void field_builder::visit(const uint64_field_instruction *inst, void *) {
 void field_builder::visit(const decimal_field_instruction *inst, void *) {
   const mantissa_field_instruction *base_mantissa_instruction =
       inst->mantissa_instruction();
-  const XMLElement *mantissa_element = element_.FirstChildElement("mantissa");
-  const XMLElement *exponent_element = element_.FirstChildElement("exponent");
+  const XMLElement *mantissa_element = type_child_element("mantissa");
+  const XMLElement *exponent_element = type_child_element("exponent");
   field_instruction *instruction;
   if (base_mantissa_instruction || mantissa_element || exponent_element) {
 
@@ -250,7 +255,7 @@ void field_builder::visit(const unicode_field_instruction *inst, void *) {
   field_op fop(inst, &op_element(), alloc());
 
   const XMLAttribute *length_attributes = nullptr;
-  const XMLElement *length_element = element_.FirstChildElement("length");
+  const XMLElement *length_element = type_child_element("length");
 
   if (length_element) {
     length_attributes = length_element->FirstAttribute();
@@ -271,7 +276,7 @@ void field_builder::visit(const byte_vector_field_instruction *inst, void *) {
   field_op fop(inst, &op_element(), alloc());
 
   const XMLAttribute *length_attributes = nullptr;
-  const XMLElement *length_element = element_.FirstChildElement("length");
+  const XMLElement *length_element = type_child_element("length");
 
   if (length_element) {
     length_attributes = length_element->FirstAttribute();
diff --git a/src/mfast/xml_parser/field_builder.h b/src/mfast/xml_parser/field_builder.h
index c8a3a7c..bfbc947 100644
--- a/src/mfast/xml_parser/field_builder.h
+++ b/src/mfast/xml_parser/field_builder.h
@@ -97,6 +97,7 @@ protected:
   virtual void visit(const set_field_instruction *, void *) override;
 
   const XMLElement &op_element() const;
+  const XMLElement *type_child_element(const char *name) const;
   instructions_view_t build_subfields();
   const group_field_instruction *get_sole_templateref();
   const uint32_field_instruction *
-- 
2.43.0


From cde324a526bb29a2289ce1aebdfa6e8b1035f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:13 +0000
Subject: [PATCH 091/119] fix: type references of groups and sequences were
 lost inside of type elements

---
 src/mfast/xml_parser/field_builder.cpp    |  6 ++++--
 src/mfast/xml_parser/field_builder_base.h | 10 ++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index e72a4b9..b08b80b 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -430,7 +430,8 @@ void field_builder::visit(const group_field_instruction *inst, void *) {
   auto instruction = new (alloc()) group_field_instruction(
       get_presence(inst), get_id(inst), get_name(alloc()),
       get_ns(inst, alloc()), get_dictionary(inst), subinstructions,
-      get_typeRef_name(element_), get_typeRef_ns(element_), inst->cpp_ns(),
+      get_typeRef_name(*content_element_, inst->typeref_name()),
+      get_typeRef_ns(*content_element_, inst->typeref_ns()), inst->cpp_ns(),
       parse_tag(inst));
 
   if (inst->subinstructions().size() == 0) {
@@ -500,7 +501,8 @@ void field_builder::visit(const sequence_field_instruction *inst, void *) {
       get_presence(inst), get_id(inst), get_name(alloc()),
       get_ns(inst, alloc()), get_dictionary(inst), subinstructions,
       element_instruction, ref_inst, get_length_instruction(inst),
-      get_typeRef_name(element_), get_typeRef_ns(element_), inst->cpp_ns(),
+      get_typeRef_name(*content_element_, inst->typeref_name()),
+      get_typeRef_ns(*content_element_, inst->typeref_ns()), inst->cpp_ns(),
       parse_tag(inst));
 
   parent_->add_instruction(instruction);
diff --git a/src/mfast/xml_parser/field_builder_base.h b/src/mfast/xml_parser/field_builder_base.h
index 5201386..e5f1a35 100644
--- a/src/mfast/xml_parser/field_builder_base.h
+++ b/src/mfast/xml_parser/field_builder_base.h
@@ -23,20 +23,22 @@ public:
       : registry_(registry), local_types_(types), resolved_ns_(nullptr) {}
 
   const char *resolved_ns() const { return resolved_ns_; }
-  const char *get_typeRef_name(const XMLElement &element) {
+  const char *get_typeRef_name(const XMLElement &element,
+                               const char *inherited = "") {
     const XMLElement *typeRefElem = element.FirstChildElement("typeRef");
     if (typeRefElem) {
       return string_dup(get_optional_attr(*typeRefElem, "name", ""), alloc());
     }
-    return "";
+    return inherited;
   }
 
-  const char *get_typeRef_ns(const XMLElement &element) {
+  const char *get_typeRef_ns(const XMLElement &element,
+                             const char *inherited = "") {
     const XMLElement *typeRefElem = element.FirstChildElement("typeRef");
     if (typeRefElem) {
       return string_dup(get_optional_attr(*typeRefElem, "ns", ""), alloc());
     }
-    return "";
+    return inherited;
   }
 
   arena_allocator &alloc() const { return registry_->alloc_; }
-- 
2.43.0


From f7e175e5da5f3152bf74f6f9dc725b7e53a064fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:51 +0000
Subject: [PATCH 092/119] fix: the namespace of the type replaced that of the
 field

---
 src/mfast/xml_parser/field_builder.cpp | 16 ++++++++++++----
 src/mfast/xml_parser/field_builder.h   |  1 +
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index b08b80b..6513bd1 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -70,13 +70,20 @@ const char *field_builder::resolve_field_type(const XMLElement &element) {
     if (content_element_) {
       field_type_name_ = content_element_->Name();
       if (strcmp(field_type_name_, "type") == 0) {
-        field_type_name_ = name_;
+        // name and ns of the type element are those of the type rather than
+        // of the field
+        const char *field_name = name_;
+        const char *field_ns = ns_;
         name_ = nullptr;
+        ns_ = nullptr;
         fast_xml_attributes::set(content_element_->FirstAttribute());
 
         if (name_ == nullptr)
           throw std::runtime_error("type element does not have a name");
-        std::swap(field_type_name_, name_);
+        field_type_name_ = name_;
+        type_ns_ = ns_;
+        name_ = field_name;
+        ns_ = field_ns;
       } else {
         fast_xml_attributes::set(content_element_->FirstAttribute());
       }
@@ -118,10 +125,11 @@ const field_instruction *field_builder::find_prototype(const char *type_name) {
   }
 
   if (instruction == nullptr) {
-    instruction = this->find_type(ns_, type_name);
+    const char *type_ns = type_ns_ ? type_ns_ : ns_;
+    instruction = this->find_type(type_ns, type_name);
     // the ns attribute of a field qualifies the field name rather than the
     // builtin types.
-    if (instruction == nullptr && ns_ != nullptr)
+    if (instruction == nullptr && type_ns != nullptr)
       instruction = this->find_type(nullptr, type_name);
   }
 
diff --git a/src/mfast/xml_parser/field_builder.h b/src/mfast/xml_parser/field_builder.h
index bfbc947..23dec4c 100644
--- a/src/mfast/xml_parser/field_builder.h
+++ b/src/mfast/xml_parser/field_builder.h
@@ -18,6 +18,7 @@ protected:
   instruction_list_t instructions_;
 
   const char *field_type_name_;
+  const char *type_ns_ = nullptr;
   const XMLElement &element_;
   const XMLElement *content_element_;
   field_builder_base *parent_;
-- 
2.43.0


From 52cc8e448075416c4122fb2d6d518fad5b047f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:51 +0000
Subject: [PATCH 093/119] fix: templates were looked up in the namespace of
 their fields

---
 src/mfast/xml_parser/field_builder.cpp     | 13 +++++++------
 src/mfast/xml_parser/field_builder_base.h  |  6 +++++-
 src/mfast/xml_parser/templates_builder.cpp |  1 +
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 6513bd1..e0ca4e5 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -146,7 +146,9 @@ field_builder::field_builder(field_builder_base *parent,
                              const XMLElement &element)
     : fast_xml_attributes(element.FirstAttribute()),
       field_builder_base(parent->registry(), parent->local_types()),
-      element_(element), parent_(parent) {}
+      element_(element), parent_(parent) {
+  template_ns_ = templateNs_ ? templateNs_ : parent->template_ns();
+}
 
 field_builder::field_builder(field_builder_base *parent,
                              const XMLElement &element, const char *name)
@@ -154,6 +156,7 @@ field_builder::field_builder(field_builder_base *parent,
       field_builder_base(parent->registry(), parent->local_types()),
       element_(element), parent_(parent) {
   name_ = name;
+  template_ns_ = parent->template_ns();
 }
 
 void field_builder::build() {
@@ -335,11 +338,9 @@ void field_builder::visit(const templateref_instruction *, void *) {
   templateref_instruction *instruction;
 
   if (name_) {
-    const char *resolved_ns =
-        get_optional_attr(element_, "templateNs", parent_->resolved_ns());
     const template_instruction *target =
         dynamic_cast<const template_instruction *>(
-            this->find_type(resolved_ns, name_));
+            this->find_type(template_ns_, name_));
 
     if (target == nullptr) {
       BOOST_THROW_EXCEPTION(template_not_found_error(name_, parent_->name()));
@@ -412,7 +413,7 @@ const group_field_instruction *field_builder::get_sole_templateref() {
     const char *target_name = child->Attribute("name", nullptr);
     if (target_name) {
       const char *target_ns =
-          get_optional_attr(*child, "templateNs", parent_->resolved_ns());
+          get_optional_attr(*child, "templateNs", template_ns_);
 
       const group_field_instruction *target =
           dynamic_cast<const group_field_instruction *>(
@@ -535,7 +536,7 @@ void field_builder::visit(const template_instruction *inst, void *) {
       get_typeRef_name(element_), get_typeRef_ns(element_), inst->cpp_ns(),
       parse_tag(inst));
 
-  parent_->add_template(this->resolved_ns(), instruction);
+  parent_->add_template(template_ns_, instruction);
 }
 
 void field_builder::add_template(const char *, template_instruction *inst) {
diff --git a/src/mfast/xml_parser/field_builder_base.h b/src/mfast/xml_parser/field_builder_base.h
index e5f1a35..d16e33f 100644
--- a/src/mfast/xml_parser/field_builder_base.h
+++ b/src/mfast/xml_parser/field_builder_base.h
@@ -20,9 +20,12 @@ typedef std::map<std::string, const field_instruction *> type_map_t;
 class field_builder_base {
 public:
   field_builder_base(template_registry_impl *registry, const type_map_t *types)
-      : registry_(registry), local_types_(types), resolved_ns_(nullptr) {}
+      : registry_(registry), local_types_(types), resolved_ns_(nullptr),
+        template_ns_("") {}
 
   const char *resolved_ns() const { return resolved_ns_; }
+  /// the namespace of template names
+  const char *template_ns() const { return template_ns_; }
   const char *get_typeRef_name(const XMLElement &element,
                                const char *inherited = "") {
     const XMLElement *typeRefElem = element.FirstChildElement("typeRef");
@@ -67,6 +70,7 @@ protected:
   template_registry_impl *registry_;
   const type_map_t *local_types_;
   const char *resolved_ns_;
+  const char *template_ns_;
 };
 
 } /* xml_parser */
diff --git a/src/mfast/xml_parser/templates_builder.cpp b/src/mfast/xml_parser/templates_builder.cpp
index 88341c6..ee7b56f 100644
--- a/src/mfast/xml_parser/templates_builder.cpp
+++ b/src/mfast/xml_parser/templates_builder.cpp
@@ -125,6 +125,7 @@ bool templates_builder::VisitEnter(const XMLElement &element,
     resolved_ns_ =
         string_dup(get_optional_attr(element, "templateNs", ""), alloc());
     definition_->template_ns_ = resolved_ns_;
+    template_ns_ = resolved_ns_;
     definition_->dictionary_ =
         string_dup(get_optional_attr(element, "dictionary", ""), alloc());
     return true;
-- 
2.43.0


From dc168dfb8b32d1a178b17cbfd9403d59550842b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:10 +0000
Subject: [PATCH 094/119] fix: operators that do not fit their fields were
 accepted by the template loader

---
 src/mfast/xml_parser/field_builder.cpp | 21 ++++++++++++++++++
 src/mfast/xml_parser/field_builder.h   |  7 +++++-
 src/mfast/xml_parser/field_op.cpp      | 30 ++++++++++++++++++++++++++
 src/mfast/xml_parser/field_op.h        | 20 +++++++++++++++++
 4 files changed, 77 insertions(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index e0ca4e5..6cc635e 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -157,6 +157,7 @@ field_builder::field_builder(field_builder_base *parent,
       element_(element), parent_(parent) {
   name_ = name;
   template_ns_ = parent->template_ns();
+  defining_ = true;
 }
 
 void field_builder::build() {
@@ -167,6 +168,15 @@ void field_builder::build() {
   }
 }
 
+void field_builder::check(const field_op &fop, unsigned allowed_operators,
+                          presence_enum_t presence) const {
+  fop.check_operator(name_, allowed_operators);
+  // the presence and the initial value of a defined type can still be given
+  // where the type is used
+  if (!defining_)
+    fop.check_initial_value(name_, presence);
+}
+
 // the operator is a child of either the field element or the type inside it
 const XMLElement &field_builder::op_element() const {
   return field_op::find_field_op_element(element_) ? element_
@@ -181,6 +191,7 @@ const XMLElement *field_builder::type_child_element(const char *name) const {
 template <typename IntType>
 void field_builder::build_integer(const int_field_instruction<IntType> *inst) {
   field_op fop(inst, &op_element(), alloc());
+  check(fop, field_op::integer_operators, get_presence(inst));
 
   field_instruction *instruction = new (alloc()) int_field_instruction<IntType>(
       fop.op_, get_presence(inst), get_id(inst), get_name(alloc()),
@@ -225,6 +236,7 @@ void field_builder::visit(const decimal_field_instruction *inst, void *) {
     if (mantissa_element) {
       field_op mantissa_op(base_mantissa_instruction, mantissa_element,
                            alloc());
+      check(mantissa_op, field_op::integer_operators, presence_mandatory);
 
       mantissa_instruction = new (alloc()) mantissa_field_instruction(
           mantissa_op.op_, mantissa_op.context_,
@@ -235,6 +247,7 @@ void field_builder::visit(const decimal_field_instruction *inst, void *) {
     }
 
     field_op exponent_op(inst, exponent_element, alloc());
+    check(exponent_op, field_op::integer_operators, get_presence(inst));
 
     instruction = new (alloc()) decimal_field_instruction(
         exponent_op.op_, get_presence(inst), get_id(inst), get_name(alloc()),
@@ -243,6 +256,7 @@ void field_builder::visit(const decimal_field_instruction *inst, void *) {
   } else {
 
     field_op decimal_op(inst, &op_element(), alloc());
+    check(decimal_op, field_op::decimal_operators, get_presence(inst));
 
     instruction = new (alloc()) decimal_field_instruction(
         decimal_op.op_, get_presence(inst), get_id(inst), get_name(alloc()),
@@ -255,6 +269,7 @@ void field_builder::visit(const decimal_field_instruction *inst, void *) {
 
 void field_builder::visit(const ascii_field_instruction *inst, void *) {
   field_op fop(inst, &op_element(), alloc());
+  check(fop, field_op::string_operators, get_presence(inst));
   field_instruction *instruction = new (alloc()) ascii_field_instruction(
       fop.op_, get_presence(inst), get_id(inst), get_name(alloc()),
       get_ns(inst, alloc()), fop.context_,
@@ -264,6 +279,7 @@ void field_builder::visit(const ascii_field_instruction *inst, void *) {
 
 void field_builder::visit(const unicode_field_instruction *inst, void *) {
   field_op fop(inst, &op_element(), alloc());
+  check(fop, field_op::string_operators, get_presence(inst));
 
   const XMLAttribute *length_attributes = nullptr;
   const XMLElement *length_element = type_child_element("length");
@@ -285,6 +301,7 @@ void field_builder::visit(const unicode_field_instruction *inst, void *) {
 
 void field_builder::visit(const byte_vector_field_instruction *inst, void *) {
   field_op fop(inst, &op_element(), alloc());
+  check(fop, field_op::string_operators, get_presence(inst));
 
   const XMLAttribute *length_attributes = nullptr;
   const XMLElement *length_element = type_child_element("length");
@@ -465,6 +482,7 @@ field_builder::get_length_instruction(const sequence_field_instruction *inst) {
     fast_xml_attributes length_attributes(length_element->FirstAttribute());
 
     field_op length_fop(length_instruction, length_element, alloc());
+    check(length_fop, field_op::integer_operators, get_presence(inst));
 
     length_instruction = new (alloc()) uint32_field_instruction(
         length_fop.op_, get_presence(inst),
@@ -608,6 +626,7 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
   if (!field_op::find_field_op_element(*element))
     element = content_element_;
   field_op fop(inst, element, alloc());
+  check(fop, field_op::enum_operators, get_presence(inst));
 
   const char **enum_element_names = inst->elements();
   uint64_t num_elements = inst->num_elements();
@@ -715,6 +734,7 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
   if (!field_op::find_field_op_element(*element))
     element = content_element_;
   field_op fop(inst, element, alloc());
+  check(fop, field_op::enum_operators, get_presence(inst));
 
   const char **enum_element_names = inst->elements();
   uint64_t num_elements = inst->num_elements();
@@ -815,6 +835,7 @@ void field_builder::visit(const set_field_instruction *inst, void *)
   if (!field_op::find_field_op_element(*element))
     element = content_element_;
   field_op fop(inst, element, alloc());
+  check(fop, field_op::enum_operators, get_presence(inst));
 
   const auto** set_element_names = inst->elements();
   auto num_elements = inst->num_elements();
diff --git a/src/mfast/xml_parser/field_builder.h b/src/mfast/xml_parser/field_builder.h
index 23dec4c..7b7a71c 100644
--- a/src/mfast/xml_parser/field_builder.h
+++ b/src/mfast/xml_parser/field_builder.h
@@ -11,6 +11,8 @@ namespace mfast {
 namespace xml_parser {
 typedef std::deque<const field_instruction *> instruction_list_t;
 
+class field_op;
+
 class field_builder : public fast_xml_attributes,
                       public field_builder_base,
                       public field_instruction_visitor {
@@ -22,6 +24,7 @@ protected:
   const XMLElement &element_;
   const XMLElement *content_element_;
   field_builder_base *parent_;
+  bool defining_ = false;
 
 public:
   field_builder(field_builder_base *parent, const XMLElement &element);
@@ -47,7 +50,7 @@ protected:
   template <typename Instruction>
   uint32_t get_length_id(const Instruction *inst,
                          const fast_xml_attributes &length_attrs) const {
-    return length_attrs.id_ ? static_cast<uint32_t>(std::stoi(length_attrs.id_))
+    return length_attrs.id_ ? boost::lexical_cast<uint32_t>(length_attrs.id_)
                             : inst->length_id();
   }
 
@@ -97,6 +100,8 @@ protected:
   virtual void visit(const enum_field_instruction *, void *) override;
   virtual void visit(const set_field_instruction *, void *) override;
 
+  void check(const field_op &fop, unsigned allowed_operators,
+             presence_enum_t presence) const;
   const XMLElement &op_element() const;
   const XMLElement *type_child_element(const char *name) const;
   instructions_view_t build_subfields();
diff --git a/src/mfast/xml_parser/field_op.cpp b/src/mfast/xml_parser/field_op.cpp
index 8936fcc..35042a3 100644
--- a/src/mfast/xml_parser/field_op.cpp
+++ b/src/mfast/xml_parser/field_op.cpp
@@ -167,6 +167,36 @@ void field_op::parse_field_op(const XMLElement &field_op_element,
   }
 }
 
+void field_op::check_operator(const char *field_name, unsigned allowed) const {
+  if ((allowed & (1u << op_)) == 0) {
+    BOOST_THROW_EXCEPTION(
+        fast_static_error("S2") << reason_info(
+            std::string("Operator is not applicable to the type of field ") +
+            (field_name ? field_name : "")));
+  }
+}
+
+void field_op::check_initial_value(const char *field_name,
+                                   presence_enum_t presence) const {
+  if (!initial_value_.is_empty())
+    return;
+
+  if (op_ == operator_constant) {
+    BOOST_THROW_EXCEPTION(
+        fast_static_error("S4") << reason_info(
+            std::string("Constant operator without initial value in field ") +
+            (field_name ? field_name : "")));
+  }
+
+  if (op_ == operator_default && presence == presence_mandatory) {
+    BOOST_THROW_EXCEPTION(
+        fast_static_error("S5") << reason_info(
+            std::string("Default operator without initial value in mandatory "
+                        "field ") +
+            (field_name ? field_name : "")));
+  }
+}
+
 } /* xml_parser */
 
 } /* mfast */
diff --git a/src/mfast/xml_parser/field_op.h b/src/mfast/xml_parser/field_op.h
index d037a74..ebba283 100644
--- a/src/mfast/xml_parser/field_op.h
+++ b/src/mfast/xml_parser/field_op.h
@@ -61,6 +61,26 @@ public:
 
   static const XMLElement *find_field_op_element(const XMLElement &element);
 
+  // the sets of operators that the types of fields allow
+  enum {
+    integer_operators = 1 << operator_none | 1 << operator_constant |
+                        1 << operator_default | 1 << operator_copy |
+                        1 << operator_increment | 1 << operator_delta,
+    decimal_operators = 1 << operator_none | 1 << operator_constant |
+                        1 << operator_default | 1 << operator_copy |
+                        1 << operator_delta,
+    string_operators = decimal_operators | 1 << operator_tail,
+    enum_operators = 1 << operator_none | 1 << operator_constant |
+                     1 << operator_default | 1 << operator_copy
+  };
+
+  // check whether the operator is applicable to the type of the field
+  void check_operator(const char *field_name, unsigned allowed) const;
+
+  // check whether the operator is given the initial value it needs
+  void check_initial_value(const char *field_name,
+                           presence_enum_t presence) const;
+
 private:
   // lexical_cast accepts negative numbers for unsigned types and wraps them
   template <typename T> static T unsigned_cast(const char *str) {
-- 
2.43.0


From 9a22c0cd2c8eac37b6324343966207bf413ae31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:10 +0000
Subject: [PATCH 095/119] fix: negative identifiers were accepted by the
 template loader

---
 src/mfast/xml_parser/fast_xml_attributes.h | 10 +++++++++-
 src/mfast/xml_parser/field_builder.cpp     |  2 +-
 src/mfast/xml_parser/field_builder.h       |  2 +-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mfast/xml_parser/fast_xml_attributes.h b/src/mfast/xml_parser/fast_xml_attributes.h
index 0d10407..bd6a0f7 100644
--- a/src/mfast/xml_parser/fast_xml_attributes.h
+++ b/src/mfast/xml_parser/fast_xml_attributes.h
@@ -77,8 +77,16 @@ struct fast_xml_attributes {
     return is_optional ? presence_optional : presence_mandatory;
   }
 
+  // lexical_cast accepts negative numbers for unsigned types and wraps them
+  static uint32_t parse_id(const char *id) {
+    const uint32_t value = boost::lexical_cast<uint32_t>(id);
+    if (*id == '-' && value != 0)
+      BOOST_THROW_EXCEPTION(boost::bad_lexical_cast());
+    return value;
+  }
+
   uint32_t get_id(const field_instruction *inst) const {
-    return id_ ? boost::lexical_cast<uint32_t>(id_) : inst->id();
+    return id_ ? parse_id(id_) : inst->id();
   }
 
   const char *get_name(arena_allocator &alloc) const {
diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 6cc635e..2837cb0 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -548,7 +548,7 @@ void field_builder::visit(const template_instruction *inst, void *) {
   }
 
   auto instruction = new (alloc()) template_instruction(
-      id_ ? boost::lexical_cast<uint32_t>(id_) : 0, string_dup(name_, alloc()),
+      id_ ? parse_id(id_) : 0, string_dup(name_, alloc()),
       string_dup(ns_, alloc()), string_dup(templateNs_, alloc()),
       string_dup(dictionary_, alloc()), build_subfields(), reset,
       get_typeRef_name(element_), get_typeRef_ns(element_), inst->cpp_ns(),
diff --git a/src/mfast/xml_parser/field_builder.h b/src/mfast/xml_parser/field_builder.h
index 7b7a71c..233ffb3 100644
--- a/src/mfast/xml_parser/field_builder.h
+++ b/src/mfast/xml_parser/field_builder.h
@@ -50,7 +50,7 @@ protected:
   template <typename Instruction>
   uint32_t get_length_id(const Instruction *inst,
                          const fast_xml_attributes &length_attrs) const {
-    return length_attrs.id_ ? boost::lexical_cast<uint32_t>(length_attrs.id_)
+    return length_attrs.id_ ? parse_id(length_attrs.id_)
                             : inst->length_id();
   }
 
-- 
2.43.0


From 7b74b44ffee6e18146e9c66bb613c17d01f23c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:53 +0000
Subject: [PATCH 096/119] hook: let AddressSanitizer see the blocks of the
 arena allocator (MFAST_VERIFY_ARENA)

---
 src/mfast/arena_allocator.cpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/mfast/arena_allocator.cpp b/src/mfast/arena_allocator.cpp
index 2037849..e09c9f5 100644
--- a/src/mfast/arena_allocator.cpp
+++ b/src/mfast/arena_allocator.cpp
@@ -9,6 +9,21 @@
 #include <cstdlib>
 #include <new>
 
+#ifdef MFAST_VERIFY_ARENA
+// verification only: AddressSanitizer is told which parts of the chunks are
+// allocated, and the blocks are kept apart from each other
+#include <sanitizer/asan_interface.h>
+#define MFAST_ARENA_PAD(n) ((n) + 16)
+#define MFAST_ARENA_POISON(from, to)                                           \
+  ASAN_POISON_MEMORY_REGION(                                                   \
+      from, reinterpret_cast<char *>(to) - reinterpret_cast<char *>(from))
+#define MFAST_ARENA_UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
+#else
+#define MFAST_ARENA_PAD(n) (n)
+#define MFAST_ARENA_POISON(from, to)
+#define MFAST_ARENA_UNPOISON(p, n)
+#endif
+
 namespace mfast {
 
 namespace {
@@ -30,6 +45,7 @@ arena_allocator::arena_allocator() : free_list_head_(nullptr) {
   if (block == nullptr)
     throw std::bad_alloc();
   current_list_head_ = new (block) memory_chunk(default_chunk_size, nullptr);
+  MFAST_ARENA_POISON(current_list_head_->user_memory, current_list_head_->end_);
 }
 
 arena_allocator::~arena_allocator() {
@@ -40,8 +56,11 @@ arena_allocator::~arena_allocator() {
 void *arena_allocator::allocate(std::size_t n) {
   if (n > max_request)
     throw std::bad_alloc();
+#ifdef MFAST_VERIFY_ARENA
+  const std::size_t requested = n;
+#endif
   // align n to the multiple of pointer
-  n = align(n, sizeof(void *));
+  n = align(MFAST_ARENA_PAD(n), sizeof(void *));
 
   if (current_list_head_->size() < n) {
     // current block does not have enough memory
@@ -87,6 +106,8 @@ void *arena_allocator::allocate(std::size_t n) {
       }
       current_list_head_ =
           new (block) memory_chunk(new_chunk_size, current_list_head_);
+      MFAST_ARENA_POISON(current_list_head_->user_memory,
+                         current_list_head_->end_);
     }
   }
 #ifdef _MSC_VER
@@ -94,6 +115,7 @@ void *arena_allocator::allocate(std::size_t n) {
 #endif
   char *result = current_list_head_->start_;
   current_list_head_->start_ += n;
+  MFAST_ARENA_UNPOISON(result, requested);
   return result;
 }
 
@@ -131,6 +153,11 @@ bool arena_allocator::reset() {
   current_list_head_->next_ = nullptr;
   current_list_head_->start_ =
       reinterpret_cast<char *>(current_list_head_->user_memory);
+#ifdef MFAST_VERIFY_ARENA
+  MFAST_ARENA_POISON(current_list_head_->user_memory, current_list_head_->end_);
+  for (memory_chunk_base *c = free_list_head_; c; c = c->next_)
+    MFAST_ARENA_POISON(c->user_memory, c->end_);
+#endif
   return true;
 }
 
-- 
2.43.0


From 42ae4087d83a9e6bf329d5d904e0f9c49dac2dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:10 +0000
Subject: [PATCH 097/119] fix: views read outside of the message, skipped
 alternatives and followed stale paths

---
 src/mfast/view_iterator.cpp | 30 +++++++++++++++++++++++++-----
 src/mfast/view_iterator.h   |  6 +++++-
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/mfast/view_iterator.cpp b/src/mfast/view_iterator.cpp
index af51e2d..eba9c26 100644
--- a/src/mfast/view_iterator.cpp
+++ b/src/mfast/view_iterator.cpp
@@ -16,10 +16,12 @@ bool view_iterator_helper::access_field(view_iterator *itr) {
   if (itr->view_info_->prefix_diff() < itr->non_leaves_.size())
     itr->non_leaves_.resize(itr->view_info_->prefix_diff());
 
-  while (itr->non_leaves_.back() == aggregate_cref::iterator()) {
+  while (itr->non_leaves_.back() == aggregate_cref::iterator() ||
+         itr->view_info_->nest_indices[itr->non_leaves_.size() - 1] == -1) {
     // if the field is nesting inside a sequence, a null
     // object could be inserted into the stack in order to
-    // keep nesting level correct.
+    // keep nesting level correct. A reference to a sequence element ends at
+    // the element the previous reference went through.
     itr->non_leaves_.pop_back();
   }
 
@@ -36,7 +38,8 @@ bool view_iterator_helper::access_field(view_iterator *itr) {
 
       if (itr->leaf_.field_type() == mfast::field_type_sequence) {
         sequence_cref seq(itr->leaf_);
-        if ((int)seq.size() > index) {
+        if (static_cast<field_view_info::nest_index_t>(seq.size()) > index &&
+            seq[index].num_fields() > 0) {
           // I cannot store an sequence_cref into the stack because of the
           // incompatibility between sequence_cref and aggregate_cref.
           // Therefore, I just store an empty object to keep the
@@ -47,8 +50,11 @@ bool view_iterator_helper::access_field(view_iterator *itr) {
           index = itr->view_info_->nest_indices[++nest_level];
           if (index == -1) {
             itr->leaf_.refers_to(*itr->non_leaves_.back());
+            finished = true;
           }
         } else {
+          // there is no such element
+          itr->leaf_.refers_to(field_cref());
           finished = true;
         }
       } else {
@@ -59,8 +65,17 @@ bool view_iterator_helper::access_field(view_iterator *itr) {
   return itr->leaf_.present();
 }
 
-void view_iterator_helper::increment(view_iterator *itr) {
+// move to the next reference without accessing it; only the path which all
+// references since the last access have in common is retained.
+void view_iterator_helper::skip(view_iterator *itr) {
   ++itr->view_info_;
+  if (itr->view_info_->prefix_diff() < itr->non_leaves_.size())
+    itr->non_leaves_.resize(itr->view_info_->prefix_diff());
+}
+
+// access the first reference of the current field which is present and move
+// to the last one.
+void view_iterator_helper::access_alternatives(view_iterator *itr) {
   if (itr->view_info_->prop == 0)
     return;
 
@@ -68,7 +83,12 @@ void view_iterator_helper::increment(view_iterator *itr) {
     ++itr->view_info_;
 
   while (itr->view_info_->cont())
-    ++itr->view_info_;
+    skip(itr);
+}
+
+void view_iterator_helper::increment(view_iterator *itr) {
+  ++itr->view_info_;
+  access_alternatives(itr);
 }
 
 } /* mfast */
diff --git a/src/mfast/view_iterator.h b/src/mfast/view_iterator.h
index a12b18e..ac34581 100644
--- a/src/mfast/view_iterator.h
+++ b/src/mfast/view_iterator.h
@@ -40,7 +40,11 @@ class view_iterator;
 class MFAST_EXPORT view_iterator_helper {
 public:
   static bool access_field(view_iterator *itr);
+  static void access_alternatives(view_iterator *itr);
   static void increment(view_iterator *itr);
+
+private:
+  static void skip(view_iterator *itr);
 };
 
 class view_iterator
@@ -54,7 +58,7 @@ public:
       : view_info_(view_info) {
     non_leaves_.reserve(max_depth);
     non_leaves_.push_back(ref.begin());
-    access_field();
+    view_iterator_helper::access_alternatives(this);
   }
 
   view_iterator(const field_view_info *view_info) : view_info_(view_info) {}
-- 
2.43.0


From 4aacae40e44d6adc423ab0178b40319dcdaa333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:10 +0000
Subject: [PATCH 098/119] fix: views without references and with large indices
 overran the memory of the template loader

---
 src/mfast/xml_parser/view_info_builder.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mfast/xml_parser/view_info_builder.cpp b/src/mfast/xml_parser/view_info_builder.cpp
index ee59cce..a9cf724 100644
--- a/src/mfast/xml_parser/view_info_builder.cpp
+++ b/src/mfast/xml_parser/view_info_builder.cpp
@@ -165,7 +165,7 @@ void view_info_builder::build_field_view(const tinyxml2::XMLElement &element,
   if (ref_name.size()) {
     field_view_info result = {field_view_info::CONTINUE_BIT, nullptr};
 
-    std::vector<int> sequence_indeces;
+    std::vector<unsigned> sequence_indeces;
 
     std::string ref_name_no_seq_index;
     // remove anything in [] and save the numbers in [] into a queue
@@ -181,6 +181,9 @@ void view_info_builder::build_field_view(const tinyxml2::XMLElement &element,
         new_pos = ref_name.find_first_of(']', pos);
         if (new_pos != std::string::npos) {
           try {
+            // lexical_cast accepts negative numbers for unsigned types
+            if (ref_name[pos] == '-')
+              BOOST_THROW_EXCEPTION(boost::bad_lexical_cast());
             sequence_indeces.push_back(boost::lexical_cast<unsigned>(
                 ref_name.substr(pos, new_pos - pos)));
             pos = new_pos;
@@ -208,7 +211,7 @@ void view_info_builder::build_field_view(const tinyxml2::XMLElement &element,
     // replace every instance -2 with the indeces in []
     typedef field_view_info::nest_index_t nest_index_t;
     nest_index_t *nest_indices = static_cast<nest_index_t *>(
-        alloc_.allocate(sizeof(nest_index_t) * field_indeces.size() + 1));
+        alloc_.allocate(sizeof(nest_index_t) * (field_indeces.size() + 1)));
 
     unsigned i = 0, j = 0;
     for (i = 0; i < field_indeces.size(); ++i) {
@@ -266,12 +269,17 @@ view_info_builder::build(const tinyxml2::XMLElement &element,
   const tinyxml2::XMLElement *child = element.FirstChildElement();
   while (child != nullptr) {
     if (std::strcmp(child->Name(), "field") == 0) {
+      const std::size_t first_reference = fields.size();
       const tinyxml2::XMLElement *grandchild = child->FirstChildElement();
       while (grandchild != nullptr) {
         build_field_view(*grandchild, result.max_depth_, fields);
         grandchild = grandchild->NextSiblingElement();
       }
 
+      if (fields.size() == first_reference)
+        BOOST_THROW_EXCEPTION(
+            fast_static_error("A field of a view must have a reference"));
+
       fields.back().prop &= ~field_view_info::CONTINUE_BIT;
     }
     child = child->NextSiblingElement();
-- 
2.43.0


From 6ce90236ce7b083841c00ad2a5fcaebc220ac829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:44 +0000
Subject: [PATCH 099/119] fix: elements without fields were a division by zero
 when sequences had more than none

---
 .../instructions/sequence_instruction.cpp     | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/mfast/instructions/sequence_instruction.cpp b/src/mfast/instructions/sequence_instruction.cpp
index 7d16d2e..9b8ce40 100644
--- a/src/mfast/instructions/sequence_instruction.cpp
+++ b/src/mfast/instructions/sequence_instruction.cpp
@@ -121,9 +121,11 @@ void sequence_field_instruction::construct_value(value_storage &storage,
     storage.of_array.capacity_in_bytes_ = allocate_elements(
         storage.of_array.content_, initial_length, element_size, alloc);
     try {
-      construct_sequence_elements(
-          storage, 0, storage.of_array.capacity_in_bytes_ / element_size,
-          alloc);
+      // elements without fields do not occupy any memory
+      if (element_size > 0)
+        construct_sequence_elements(
+            storage, 0, storage.of_array.capacity_in_bytes_ / element_size,
+            alloc);
     } catch (...) {
       alloc->deallocate(storage.of_array.content_,
                         storage.of_array.capacity_in_bytes_);
@@ -138,9 +140,11 @@ void sequence_field_instruction::construct_value(value_storage &storage,
 void sequence_field_instruction::destruct_value(value_storage &storage,
                                                 allocator *alloc) const {
   if (storage.of_array.capacity_in_bytes_) {
-    destruct_sequence_elements(storage, 0, storage.of_array.capacity_in_bytes_ /
-                                               this->group_content_byte_count(),
-                               alloc);
+    if (this->group_content_byte_count() > 0)
+      destruct_sequence_elements(
+          storage, 0, storage.of_array.capacity_in_bytes_ /
+                          this->group_content_byte_count(),
+          alloc);
     alloc->deallocate(storage.of_array.content_,
                       storage.of_array.capacity_in_bytes_);
   }
@@ -184,7 +188,9 @@ void sequence_field_instruction::copy_construct_value(const value_storage &src,
       // we must default construct the extra elements we reserved; otherwise we
       // may deallocate garbage pointers during destruction.
       std::size_t unused_count =
-          dest.of_array.capacity_in_bytes_ / element_size - size;
+          element_size > 0
+              ? dest.of_array.capacity_in_bytes_ / element_size - size
+              : 0;
       if (unused_count > 0) {
         // std::memset( static_cast<char*>(dest.of_array.content_) +
         // reserve_size,
-- 
2.43.0


From e60398cf71b41bf1ea91531657110dc2965903a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:44 +0000
Subject: [PATCH 100/119] fix: the description of a document without templates
 element was uninitialised

---
 src/mfast/instructions/templates_description.h |  4 +++-
 src/mfast/xml_parser/templates_builder.cpp     | 15 +++++++--------
 src/mfast/xml_parser/templates_builder.h       |  4 +++-
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/mfast/instructions/templates_description.h b/src/mfast/instructions/templates_description.h
index 0689423..290270e 100644
--- a/src/mfast/instructions/templates_description.h
+++ b/src/mfast/instructions/templates_description.h
@@ -42,7 +42,9 @@ public:
   uint32_t size() const { return instructions_count_; }
 
 protected:
-  templates_description() {}
+  templates_description()
+      : ns_(""), template_ns_(""), dictionary_(""), instructions_(nullptr),
+        instructions_count_(0) {}
   friend class coder::templates_builder;
   const char *ns_;
   const char *template_ns_;
diff --git a/src/mfast/xml_parser/templates_builder.cpp b/src/mfast/xml_parser/templates_builder.cpp
index ee7b56f..8b59c06 100644
--- a/src/mfast/xml_parser/templates_builder.cpp
+++ b/src/mfast/xml_parser/templates_builder.cpp
@@ -41,6 +41,7 @@ templates_builder::templates_builder(dynamic_templates_description *definition,
       set_field_instruction_prototype_(operator_none, presence_mandatory, 0,
                                           nullptr, "", nullptr, int_value_storage<uint64_t>(), nullptr,
                                           0, nullptr, cpp_ns_) {
+  resolved_ns_ = "";
   static const int32_field_instruction int32_field_instruction_prototype(
       operator_none, presence_mandatory, 0, nullptr, "", nullptr,
       int_value_storage<int32_t>());
@@ -153,15 +154,13 @@ bool templates_builder::VisitEnter(const XMLElement &element,
   return false;
 }
 
-bool templates_builder::VisitExit(const XMLElement &element) {
-  if (std::strcmp(element.Name(), "templates") == 0) {
-    typedef const template_instruction *const_template_instruction_ptr_t;
+bool templates_builder::VisitExit(const XMLDocument &) {
+  typedef const template_instruction *const_template_instruction_ptr_t;
 
-    definition_->instructions_ = new (alloc())
-        const_template_instruction_ptr_t[templates_.size()];
-    std::copy(templates_.begin(), templates_.end(), definition_->instructions_);
-    definition_->instructions_count_ = static_cast<uint32_t>(templates_.size());
-  }
+  definition_->instructions_ =
+      new (alloc()) const_template_instruction_ptr_t[templates_.size()];
+  std::copy(templates_.begin(), templates_.end(), definition_->instructions_);
+  definition_->instructions_count_ = static_cast<uint32_t>(templates_.size());
   return true;
 }
 
diff --git a/src/mfast/xml_parser/templates_builder.h b/src/mfast/xml_parser/templates_builder.h
index f6f4933..fedfae5 100644
--- a/src/mfast/xml_parser/templates_builder.h
+++ b/src/mfast/xml_parser/templates_builder.h
@@ -16,7 +16,9 @@ public:
 
   virtual bool VisitEnter(const XMLElement &element,
                           const XMLAttribute *attr) override;
-  virtual bool VisitExit(const XMLElement &element) override;
+  virtual bool VisitExit(const XMLDocument &document) override;
+  using XMLVisitor::VisitEnter;
+  using XMLVisitor::VisitExit;
 
   virtual std::size_t num_instructions() const override;
   virtual void add_instruction(const field_instruction *) override;
-- 
2.43.0


From fdeab074e71aa0e346ff78deffbdf12982b9771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:27 +0000
Subject: [PATCH 101/119] fix: long texts as initial exponents overflowed while
 they were converted

---
 src/mfast/xml_parser/field_op.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/xml_parser/field_op.cpp b/src/mfast/xml_parser/field_op.cpp
index 35042a3..2265851 100644
--- a/src/mfast/xml_parser/field_op.cpp
+++ b/src/mfast/xml_parser/field_op.cpp
@@ -82,9 +82,9 @@ field_op::field_op(const decimal_field_instruction *inst,
           }
           initial_value_ = value.storage_;
         } else {
-          short exp = 128;
+          int exp = 128;
           try {
-            exp = boost::lexical_cast<short>(init_value_str);
+            exp = boost::lexical_cast<int>(init_value_str);
           } catch (...) {
           }
 
-- 
2.43.0


From ad04f923faad87c4242ca1d00cd5ee5833c27760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:07 +0000
Subject: [PATCH 102/119] fix: elements of sequences of a referred type shared
 their previous values between coders

---
 src/mfast/coder/common/dictionary_builder.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index b560c7e..fdb3d11 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -151,6 +151,15 @@ void dictionary_builder::visit(const sequence_field_instruction *src_inst,
 
   this->build_group(src_inst, src_inst, dest);
 
+  if (src_inst->element_instruction()) {
+    // The elements have to use the dictionary entries of this repository
+    // rather than those inside the instructions of the referred type.
+    group_field_instruction *element =
+        src_inst->element_instruction()->clone(alloc_);
+    element->set_subinstructions(dest->subinstructions());
+    dest->element_instruction(element);
+  }
+
   if (src_inst->length_instruction()) {
     visit(src_inst->length_instruction(), &dest->sequence_length_instruction_);
   } else {
-- 
2.43.0


From 396ed9cc176810b9f8598a47d3b6912de171350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:53 +0000
Subject: [PATCH 103/119] fix: names of unknown enumeration values were read
 outside of the element table

---
 src/mfast/instructions/enum_instruction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/instructions/enum_instruction.h b/src/mfast/instructions/enum_instruction.h
index 44535de..2ab3818 100644
--- a/src/mfast/instructions/enum_instruction.h
+++ b/src/mfast/instructions/enum_instruction.h
@@ -40,7 +40,7 @@ public:
 
   const char *element_name(uint64_t v) const {
     if (element_values_ == nullptr)
-      return elements_[v];
+      return v < num_elements_ ? elements_[v] : nullptr;
     const uint64_t *it =
         std::lower_bound(element_values_, element_values_ + num_elements_, v);
     if (it != element_values_ + num_elements_ && *it == v)
-- 
2.43.0


From ba9a31e9ca69cad37f45e1eb3b51a30eec417137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:53 +0000
Subject: [PATCH 104/119] fix: booleans with unknown values made the JSON text
 incomplete

---
 src/mfast/json/json_encode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index e738c3b..43f3a49 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -83,7 +83,7 @@ public:
   }
 
   void visit(const enum_cref &ref) {
-    if (ref.is_boolean())
+    if (ref.is_boolean() && ref.value_name())
       strm_ << separator_ << ref.value_name();
     else
       strm_ << separator_ << ref.value();
-- 
2.43.0


From d0fd2b27eb9d26118e064e962008646d206e4e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:54 +0000
Subject: [PATCH 105/119] fix: sets with more than 64 elements were accepted
 although their values have 64 bits

---
 src/mfast/xml_parser/field_builder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 2837cb0..d597f57 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -859,6 +859,8 @@ void field_builder::visit(const set_field_instruction *inst, void *)
         names.push_back(string_dup(name_attr, alloc()));
       }
     }
+    if (names.size() > 64)
+      throw std::runtime_error("Sets cannot have more than 64 elements");
     num_elements = names.size();
     set_element_names = static_cast<const char**>
       (alloc().allocate(names.size() * sizeof(const char*)));
-- 
2.43.0


From 6bfbb406f3bb0430c7d3b080f3cbcad6ddcc5dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:07 +0000
Subject: [PATCH 106/119] fix: negative or trailing text was accepted in the
 values of enumerations and sets

---
 src/mfast/xml_parser/field_builder.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index d597f57..3e53fef 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -564,6 +564,16 @@ void field_builder::add_template(const char *, template_instruction *inst) {
                         << referenced_by_info(parent_->name()));
 }
 
+namespace {
+// lexical_cast accepts negative numbers for unsigned types and wraps them
+uint64_t parse_uint64(const char *str) {
+  const uint64_t value = boost::lexical_cast<uint64_t>(str);
+  if (*str == '-' && value != 0)
+    BOOST_THROW_EXCEPTION(boost::bad_lexical_cast());
+  return value;
+}
+}
+
 #if defined(XETRA_FAST_SPECIFICATION)
 bool parse_enum_value(const char **enum_element_names,
                       const uint64_t *enum_element_values,
@@ -571,7 +581,7 @@ bool parse_enum_value(const char **enum_element_names,
                       uint64_t &result) {
   boost::optional<std::uint64_t> value_int;
   try {
-    value_int = std::stoul(value_name);
+    value_int = parse_uint64(value_name);
   } catch (...) {}
   for (uint64_t i = 0; i < num_elements; ++i) {
     // FAST 1.2 does not cleary specify what a default enum value refers to,
@@ -658,7 +668,7 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
 
         const char *value_str = xml_element->Attribute("value");
         if (value_str) {
-          uint64_t v = boost::lexical_cast<uint64_t>(value_str);
+          uint64_t v = parse_uint64(value_str);
           if (values.empty() || v > values.back()) {
             values.push_back(v);
           }
@@ -762,7 +772,7 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
 
         const char *value_str = xml_element->Attribute("value");
         if (value_str) {
-          uint64_t v = boost::lexical_cast<uint64_t>(value_str);
+          uint64_t v = parse_uint64(value_str);
           if (values.empty() || v > values.back()) {
             values.push_back(v);
           }
@@ -877,7 +887,7 @@ void field_builder::visit(const set_field_instruction *inst, void *)
         break;
       }
     if (!init_value)
-      init_value = boost::lexical_cast<std::uint64_t>(init_value_str);
+      init_value = parse_uint64(init_value_str);
     fop.initial_value_ = value_storage(0); // reset the storage to defined value
     fop.initial_value_.set<uint64_t>(*init_value);
   }
-- 
2.43.0


From c18a4358762e807e3e74d9fdb6c2b9c3e879d087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:07 +0000
Subject: [PATCH 107/119] fix: elements after the largest enumeration value
 were given the value zero

---
 src/mfast/xml_parser/field_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 3e53fef..3243fb8 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -676,7 +676,7 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
           // FAST 1.2 specification does not require a value attribute
           if (values.empty())
             values.push_back(0);
-          else
+          else if (values.back() != UINT64_MAX)
             values.push_back(values.back() + 1);
         }
       }
-- 
2.43.0


From 6742ca9775c3d177e78fb2a8f97ccb0ea5b7d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:06 +0000
Subject: [PATCH 108/119] fix: loading templates with the same registry from
 several threads was a data race

---
 src/mfast/xml_parser/dynamic_templates_description.h | 2 ++
 src/mfast/xml_parser/template_registry_impl.h        | 4 ++++
 src/mfast/xml_parser/templates_builder.cpp           | 1 +
 3 files changed, 7 insertions(+)

diff --git a/src/mfast/xml_parser/dynamic_templates_description.h b/src/mfast/xml_parser/dynamic_templates_description.h
index fcf7df8..ca880ff 100644
--- a/src/mfast/xml_parser/dynamic_templates_description.h
+++ b/src/mfast/xml_parser/dynamic_templates_description.h
@@ -17,10 +17,12 @@ class templates_builder;
 }
 
 struct template_registry_impl;
+class dynamic_templates_description;
 class MFAST_XML_PARSER_EXPORT template_registry {
 private:
   xml_parser::template_registry_impl *impl_;
   friend class xml_parser::templates_builder;
+  friend class dynamic_templates_description;
 
 public:
   template_registry();
diff --git a/src/mfast/xml_parser/template_registry_impl.h b/src/mfast/xml_parser/template_registry_impl.h
index 70d849b..6bf748d 100644
--- a/src/mfast/xml_parser/template_registry_impl.h
+++ b/src/mfast/xml_parser/template_registry_impl.h
@@ -6,6 +6,7 @@
 #pragma once
 
 #include <map>
+#include <mutex>
 #include <string>
 #include "dynamic_templates_description.h"
 
@@ -15,6 +16,9 @@ struct template_registry_impl {
   typedef std::map<std::string, const field_instruction *> map_type;
   map_type types_;
   arena_allocator alloc_;
+  // held while a description is being built, for the threads loading their
+  // templates with the same registry
+  std::mutex mutex_;
 
   std::string get_key(const char *ns, const char *name) const {
     return std::string(ns) + "||" + name;
diff --git a/src/mfast/xml_parser/templates_builder.cpp b/src/mfast/xml_parser/templates_builder.cpp
index 8b59c06..cef7978 100644
--- a/src/mfast/xml_parser/templates_builder.cpp
+++ b/src/mfast/xml_parser/templates_builder.cpp
@@ -205,6 +205,7 @@ dynamic_templates_description::dynamic_templates_description(
     const char *xml_content, const char *cpp_ns, template_registry *registry) {
   XMLDocument document;
   if (document.Parse(xml_content) == 0) {
+    std::lock_guard<std::mutex> lock(registry->impl_->mutex_);
     xml_parser::templates_builder builder(this, cpp_ns, registry);
     document.Accept(&builder);
   } else {
-- 
2.43.0


From 2330434bb9a3612348d7dd6713a788eb4369563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:25 +0000
Subject: [PATCH 109/119] fix: integer vectors could not be coded by the coders
 of generated types

---
 src/mfast/vector_ref.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index bb84e84..8e2295e 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -367,6 +367,8 @@ template <typename T> class int_vector_mref : public vector_mref<T> {
   typedef vector_mref<T> base_type;
 
 public:
+  typedef int_vector_cref<T> cref_type;
+  typedef int_vector_type_tag type_category;
   typedef typename base_type::instruction_cptr instruction_cptr;
   int_vector_mref() {}
   int_vector_mref(mfast::allocator *alloc, value_storage *storage,
-- 
2.43.0


From d46b9d4e4af35928fbbd464305599b3edf42fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:25 +0000
Subject: [PATCH 110/119] fix: generated code of nested message fields did not
 compile

---
 src/fast_type_gen/inl_gen.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fast_type_gen/inl_gen.cpp b/src/fast_type_gen/inl_gen.cpp
index 6278598..6cf01b4 100644
--- a/src/fast_type_gen/inl_gen.cpp
+++ b/src/fast_type_gen/inl_gen.cpp
@@ -972,7 +972,10 @@ void inl_gen::visit(const mfast::templateref_instruction *, void *pIndex) {
        << "get_nested_message" << index << "() const\n"
        << "{\n"
        << "  return mfast::nested_message_cref((*this)[" << index << "]);\n"
-       << "}\n\n" << cref_scope_.str() << "try_get_nested_message" << index
+       << "}\n\n"
+       << "inline\n"
+       << "mfast::nested_message_cref\n" << cref_scope_.str()
+       << "try_get_nested_message" << index
        << "() const\n"
        << "{\n"
        << "  return mfast::nested_message_cref((*this)[" << index << "]);\n"
-- 
2.43.0


From bbb6cee2d924f515466ea3dc0aa38e222b3e928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:25 +0000
Subject: [PATCH 111/119] fix: generated code with several enumerations in a
 template did not compile

---
 src/fast_type_gen/cpp_gen.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index 1d5c89a..2d7f7e6 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -606,10 +606,11 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
     values_variable_name = qualified_name + "::instruction()->element_values()";
     instruction_type.str(qualified_name + "::instruction_type");
   } else {
-    elements_variable_name << "elements";
+    elements_variable_name << prefix_string() << name << "_elements";
     num_elements_name << inst->num_elements();
 
-    out_ << "static const char* elements[] = {\n";
+    out_ << "static const char* " << elements_variable_name.str()
+         << "[] = {\n";
 
     for (uint64_t i = 0; i < inst->num_elements(); ++i) {
       if (i != 0) {
@@ -620,16 +621,16 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
     out_ << "};\n";
 
     if (inst->element_values()) {
-      out_ << "static const uint64_t values[] = {\n";
+      values_variable_name = prefix_string() + name + "_values";
+      out_ << "static const uint64_t " << values_variable_name << "[] = {\n";
 
       for (uint64_t i = 0; i < inst->num_elements(); ++i) {
         if (i != 0) {
           out_ << ",\n";
         }
-        out_ << "  " << inst->element_values()[i];
+        out_ << "  " << inst->element_values()[i] << "ULL";
       }
       out_ << "};\n";
-      values_variable_name = "values";
     }
   }
 
@@ -696,9 +697,10 @@ void cpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
   }
   else
   {
-    elements_variable_name << "elements";
+    elements_variable_name << prefix_string() << name << "_elements";
     num_elements_name << inst->num_elements();
-    out_ << "static const char* elements[] = {\n";
+    out_ << "static const char* " << elements_variable_name.str()
+         << "[] = {\n";
     for (auto i = 0ul; i < inst->num_elements(); ++i)
     {
       if (i != 0)
-- 
2.43.0


From a8e0f343791d1a7e4667d0759100b43548e140ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:37 +0000
Subject: [PATCH 112/119] fix: texts, names and smallest integers were not
 valid C++ in generated code

---
 src/fast_type_gen/codegen_base.cpp |  18 +++
 src/fast_type_gen/codegen_base.h   |   2 +
 src/fast_type_gen/cpp_gen.cpp      | 175 +++++++++++++++--------------
 src/fast_type_gen/cpp_gen.h        |   1 +
 4 files changed, 112 insertions(+), 84 deletions(-)

diff --git a/src/fast_type_gen/codegen_base.cpp b/src/fast_type_gen/codegen_base.cpp
index 481031c..3645028 100644
--- a/src/fast_type_gen/codegen_base.cpp
+++ b/src/fast_type_gen/codegen_base.cpp
@@ -104,6 +104,24 @@ std::string codegen_base::cpp_name(boost::string_ref name)
   return result;
 }
 
+std::string codegen_base::cpp_literal(boost::string_ref text) {
+  std::string result = "\"";
+  for (char c : text) {
+    unsigned char u = static_cast<unsigned char>(c);
+    if (u < 0x20 || u > 0x7e || c == '"' || c == '\\' || c == '?') {
+      // always three octal digits, so that no following digit is taken for
+      // another one
+      result += '\\';
+      result += static_cast<char>('0' + (u >> 6));
+      result += static_cast<char>('0' + ((u >> 3) & 7));
+      result += static_cast<char>('0' + (u & 7));
+    } else {
+      result += c;
+    }
+  }
+  return result + "\"";
+}
+
 bool codegen_base::is_const_field(const mfast::field_instruction *inst) const {
   if (inst->field_operator() != mfast::operator_constant)
     return false;
diff --git a/src/fast_type_gen/codegen_base.h b/src/fast_type_gen/codegen_base.h
index 61ce6de..1c844a4 100644
--- a/src/fast_type_gen/codegen_base.h
+++ b/src/fast_type_gen/codegen_base.h
@@ -39,6 +39,8 @@ public:
 
   static std::string cpp_name(const mfast::field_instruction* inst);
   static std::string cpp_name(boost::string_ref n);
+  /// the text as a C++ string literal
+  static std::string cpp_literal(boost::string_ref text);
   static const  mfast::field_instruction* get_element_instruction(const mfast::sequence_field_instruction* inst);
 protected:
   void generate_comment();
diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index 2d7f7e6..d239758 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -4,7 +4,7 @@
 // This file is part of mFAST.
 // See the file license.txt for licensing information.
 #include "cpp_gen.h"
-#include <boost/io/ios_state.hpp>
+#include <limits>
 
 std::string cpp_gen::prefix_string() const {
   std::stringstream strm;
@@ -48,15 +48,15 @@ std::string cpp_gen::gen_op_context(const char *name,
   if (context == nullptr)
     return "nullptr";
 
+  std::string variable = prefix_string() + cpp_name(name) + "_opContext";
+
   out_ << "const static "
-       << "op_context_t " << prefix_string() << name << "_opContext ={\n"
-       << "  \"" << context->key_ << "\", \n"
-       << "  \"" << context->ns_ << "\", \n"
-       << "  \"" << context->dictionary_ << "\"};\n\n";
+       << "op_context_t " << variable << " ={\n"
+       << "  " << cpp_literal(context->key_) << ", \n"
+       << "  " << cpp_literal(context->ns_) << ", \n"
+       << "  " << cpp_literal(context->dictionary_) << "};\n\n";
 
-  std::stringstream result;
-  result << "&" << prefix_string() << name << "_opContext";
-  return result.str();
+  return "&" + variable;
 }
 
 void cpp_gen::gen_field(const mfast::field_instruction *inst,
@@ -70,13 +70,33 @@ void cpp_gen::gen_field(const mfast::field_instruction *inst,
        << "  " << get_operator_name(inst) << ",\n"
        << "  " << get_presence(inst) << ",\n"
        << "  " << inst->id() << ", // id\n"
-       << "  \"" << inst->name() << "\", // name\n"
-       << "  \"" << inst->ns() << "\", // ns\n"
+       << "  " << cpp_literal(inst->name()) << ", // name\n"
+       << "  " << cpp_literal(inst->ns()) << ", // ns\n"
        << "  " << context << ",  // opContext\n";
 
   add_to_instruction_list(name);
 }
 
+// the smallest values of the signed types cannot be spelled as one literal
+template <typename T> struct signed_literal {
+  T value_;
+  friend std::ostream &operator<<(std::ostream &os, signed_literal<T> v) {
+    if (v.value_ == (std::numeric_limits<T>::min)())
+      return os << v.value_ + 1 << (sizeof(T) > 4 ? "LL" : "") << " - 1";
+    return os << v.value_ << (sizeof(T) > 4 ? "LL" : "");
+  }
+};
+
+template <typename T>
+std::string get_signed_initial_value(const mfast::value_storage &storage) {
+  if (!storage.is_empty()) {
+    std::stringstream strm;
+    strm << signed_literal<T>{storage.get<T>()};
+    return strm.str();
+  }
+  return std::string();
+}
+
 template <typename T>
 std::string get_initial_value(const mfast::value_storage &storage,
                               const char *suffix) {
@@ -100,7 +120,7 @@ void cpp_gen::gen_integer(const mfast::integer_field_instruction_base *inst,
 
 void cpp_gen::visit(const mfast::int32_field_instruction *inst, void *pIndex) {
   gen_integer(inst, "int32",
-              get_initial_value<int32_t>(inst->initial_value(), ""), pIndex);
+              get_signed_initial_value<int32_t>(inst->initial_value()), pIndex);
 }
 
 void cpp_gen::visit(const mfast::uint32_field_instruction *inst, void *pIndex) {
@@ -110,7 +130,7 @@ void cpp_gen::visit(const mfast::uint32_field_instruction *inst, void *pIndex) {
 
 void cpp_gen::visit(const mfast::int64_field_instruction *inst, void *pIndex) {
   gen_integer(inst, "int64",
-              get_initial_value<int64_t>(inst->initial_value(), "LL"), pIndex);
+              get_signed_initial_value<int64_t>(inst->initial_value()), pIndex);
 }
 
 void cpp_gen::visit(const mfast::uint64_field_instruction *inst, void *pIndex) {
@@ -134,8 +154,8 @@ void cpp_gen::visit(const mfast::decimal_field_instruction *inst,
          << "  " << get_operator_name(inst->mantissa_instruction()) << ",\n"
          << "  " << context << ",  // mantissa opContext\n"
          << "  int_value_storage<int64_t>("
-         << get_initial_value<int64_t>(
-                inst->mantissa_instruction()->initial_value(), "LL")
+         << get_signed_initial_value<int64_t>(
+                inst->mantissa_instruction()->initial_value())
          << "));// mantissa inital value\n\n";
   }
 
@@ -153,7 +173,7 @@ void cpp_gen::visit(const mfast::decimal_field_instruction *inst,
 
   out_ << "  decimal_value_storage(";
   if (!init_value.is_empty())
-    out_ << init_value.of_decimal.mantissa_ << "LL, "
+    out_ << signed_literal<int64_t>{init_value.of_decimal.mantissa_} << ", "
          << static_cast<int>(init_value.of_decimal.exponent_);
   out_ << "), // initial_value\n"
        << "  " << inst->tag() << "); // tag\n\n";
@@ -168,9 +188,11 @@ void cpp_gen::gen_string(const mfast::ascii_field_instruction *inst,
     out_ << "  "
          << "string_value_storage()";
   } else {
-    out_ << "  "
-         << "string_value_storage(\"" << inst->initial_value().get<char *>()
-         << "\"," << inst->initial_value().array_length() << ")";
+    out_ << "  string_value_storage("
+         << cpp_literal(boost::string_ref(
+                inst->initial_value().get<const char *>(),
+                inst->initial_value().array_length()))
+         << "," << inst->initial_value().array_length() << ")";
   }
 }
 
@@ -180,18 +202,20 @@ void cpp_gen::visit(const mfast::ascii_field_instruction *inst, void *pIndex) {
        << "  " << inst->tag() << "); // tag\n\n";
 }
 
+void cpp_gen::gen_length(const mfast::unicode_field_instruction *inst) {
+  out_ << ", // initial value\n"
+       << "  " << inst->length_id() << ", // length id\n"
+       << "  " << cpp_literal(inst->length_name() ? inst->length_name() : "")
+       << ", // length name\n"
+       << "  " << cpp_literal(inst->length_ns() ? inst->length_ns() : "")
+       << ", // length ns\n"
+       << "  " << inst->tag() << "); // tag\n\n";
+}
+
 void cpp_gen::visit(const mfast::unicode_field_instruction *inst,
                     void *pIndex) {
   gen_string(inst, "unicode", pIndex);
-  if (inst->length_name()) {
-    out_ << ", // initial value\n"
-         << "  " << inst->length_id() << ", // length id\n"
-         << "  \"" << inst->length_name() << "\", // length name\n"
-         << "  \"" << inst->length_ns() << "\"); // length ns\n\n";
-  } else {
-    out_ << ", // initial_value\n"
-         << "  " << inst->tag() << "); // tag\n\n";
-  }
+  gen_length(inst);
 }
 
 void cpp_gen::visit(const mfast::byte_vector_field_instruction *inst,
@@ -203,31 +227,15 @@ void cpp_gen::visit(const mfast::byte_vector_field_instruction *inst,
     out_ << "  "
          << "byte_vector_value_storage()";
   } else {
-    out_ << "  "
-         << "byte_vector_value_storage(\"";
-    const char *val =
-        static_cast<const char *>(inst->initial_value().of_array.content_);
-    {
-      boost::io::ios_flags_saver ifs(out_);
-      out_ << std::hex << std::setfill('0') << std::setw(2);
-
-      for (std::size_t i = 0; i < inst->initial_value().array_length(); ++i) {
-        out_ << "\\x" << (0xFF & (int)val[i]);
-      }
-    }
-    out_ << "\"," << inst->initial_value().array_length() << ")";
+    out_ << "  byte_vector_value_storage("
+         << cpp_literal(boost::string_ref(
+                static_cast<const char *>(
+                    inst->initial_value().of_array.content_),
+                inst->initial_value().array_length()))
+         << "," << inst->initial_value().array_length() << ")";
   }
 
-  if (inst->length_name()) {
-    out_ << ", // initial value\n"
-         << "  " << inst->length_id() << ", // length id\n"
-         << "  \"" << inst->length_name() << "\", // length name\n"
-         << "  \"" << inst->length_ns() << "\", // length ns\n"
-         << "  " << inst->tag() << "); // tag\n\n";
-  } else {
-    out_ << ", // initial_value\n"
-         << "  " << inst->tag() << "); // tag\n\n";
-  }
+  gen_length(inst);
 }
 
 void cpp_gen::gen_int_vector(const char *cpp_type,
@@ -240,8 +248,8 @@ void cpp_gen::gen_int_vector(const char *cpp_type,
        << prefix_string() << name << "_instruction(\n"
        << "  " << get_presence(inst) << ",\n"
        << "  " << inst->id() << ", // id\n"
-       << "  \"" << inst->name() << "\", // name\n"
-       << "  \"" << inst->ns() << "\", // ns\n"
+       << "  " << cpp_literal(inst->name()) << ", // name\n"
+       << "  " << cpp_literal(inst->ns()) << ", // ns\n"
        << "  " << inst->tag() << "); // tag\n\n";
 
   add_to_instruction_list(name);
@@ -358,12 +366,11 @@ void cpp_gen::visit(const mfast::group_field_instruction *inst, void *pIndex) {
 
   out_ << "  " << get_presence(inst) << ",\n"
        << "  " << inst->id() << ", // id\n"
-       << "  \"" << inst->name() << "\", // name\n"
-       << "  \"" << inst->ns() << "\", // ns\n"
-       << "  \"" << inst->dictionary() << "\", // dictionary\n"
-       << subinstruction_arg << "  \"" << inst->typeref_name()
-       << "\", // typeRef name \n"
-       << "  \"" << inst->typeref_ns() << "\", // typeRef ns \n"
+       << "  " << cpp_literal(inst->name()) << ", // name\n"
+       << "  " << cpp_literal(inst->ns()) << ", // ns\n"
+       << "  " << cpp_literal(inst->dictionary()) << ", // dictionary\n"
+       << subinstruction_arg << "  " << cpp_literal(inst->typeref_name()) << ", // typeRef name \n"
+       << "  " << cpp_literal(inst->typeref_ns()) << ", // typeRef ns \n"
        << "  \"\", // cpp_ns\n"
        << "  " << inst->tag() << "); // tag\n\n";
 
@@ -395,7 +402,7 @@ void cpp_gen::visit(const mfast::sequence_field_instruction *inst,
 
   if (inst->length_instruction()) {
     std::string context =
-        gen_op_context(inst->length_instruction()->name(),
+        gen_op_context((name + "_length").c_str(),
                        inst->length_instruction()->op_context());
 
     // length
@@ -404,8 +411,8 @@ void cpp_gen::visit(const mfast::sequence_field_instruction *inst,
          << "  " << get_operator_name(inst->length_instruction()) << ",\n"
          << "  " << get_presence(inst->length_instruction()) << ",\n"
          << "  " << inst->length_instruction()->id() << ", // id\n"
-         << "  \"" << inst->length_instruction()->name() << "\", // name\n"
-         << "  \"" << inst->length_instruction()->ns() << "\", // ns\n"
+         << "  " << cpp_literal(inst->length_instruction()->name()) << ", // name\n"
+         << "  " << cpp_literal(inst->length_instruction()->ns()) << ", // ns\n"
          << "  " << context << ",  // opContext\n"
          << "  int_value_storage<uint32_t>(";
     if (!inst->length_instruction()->initial_value().is_empty())
@@ -466,13 +473,13 @@ void cpp_gen::visit(const mfast::sequence_field_instruction *inst,
 
   out_ << "  " << get_presence(inst) << ",\n"
        << "  " << inst->id() << ", // id\n"
-       << "  \"" << inst->name() << "\", // name\n"
-       << "  \"" << inst->ns() << "\", // ns\n"
-       << "  \"" << inst->dictionary() << "\", // dictionary\n"
+       << "  " << cpp_literal(inst->name()) << ", // name\n"
+       << "  " << cpp_literal(inst->ns()) << ", // ns\n"
+       << "  " << cpp_literal(inst->dictionary()) << ", // dictionary\n"
        << subinstruction_arg.str() << "  " << lengthInstruction
        << ", // length\n"
-       << "  \"" << inst->typeref_name() << "\", // typeRef name \n"
-       << "  \"" << inst->typeref_ns() << "\", // typeRef ns \n"
+       << "  " << cpp_literal(inst->typeref_name()) << ", // typeRef name \n"
+       << "  " << cpp_literal(inst->typeref_ns()) << ", // typeRef ns \n"
        << "  \"\", // cpp_ns\n"
        << "  " << inst->tag() << "); //tag \n\n";
 
@@ -506,14 +513,14 @@ void cpp_gen::visit(const mfast::template_instruction *inst, void *) {
 
   out_ << "  const static " << name << "::instruction_type the_instruction(\n"
        << "    " << inst->id() << ", // id\n"
-       << "    \"" << inst->name() << "\", // name\n"
-       << "    \"" << inst->ns() << "\", // ns\n"
-       << "    \"" << inst->template_ns() << "\", // templateNs\n"
-       << "    \"" << inst->dictionary() << "\", // dictionary\n"
+       << "    " << cpp_literal(inst->name()) << ", // name\n"
+       << "    " << cpp_literal(inst->ns()) << ", // ns\n"
+       << "    " << cpp_literal(inst->template_ns()) << ", // templateNs\n"
+       << "    " << cpp_literal(inst->dictionary()) << ", // dictionary\n"
        << "    " << name << "__subinstructions,\n"
        << "    " << inst->has_reset_attribute() << ", // reset\n"
-       << "  \"" << inst->typeref_name() << "\", // typeRef name \n"
-       << "  \"" << inst->typeref_ns() << "\", // typeRef ns \n"
+       << "  " << cpp_literal(inst->typeref_name()) << ", // typeRef name \n"
+       << "  " << cpp_literal(inst->typeref_ns()) << ", // typeRef ns \n"
        << "  \"\", // cpp_ns\n"
        << "  " << inst->tag() << "); // tag \n\n"
        << "  ptr_instruction = &the_instruction;\n"
@@ -558,9 +565,9 @@ void cpp_gen::generate(mfast::dynamic_templates_description &desc) {
          << "_templates_instructions[] ={\n" << instructions << "};\n\n"
          << "templates_description::templates_description()\n"
          << "  : mfast::templates_description(\n"
-         << "    \"" << desc.ns() << "\", // ns\n"
-         << "    \"" << desc.template_ns() << "\", // templateNs\n"
-         << "    \"" << desc.dictionary() << "\", // dictionary\n"
+         << "    " << cpp_literal(desc.ns()) << ", // ns\n"
+         << "    " << cpp_literal(desc.template_ns()) << ", // templateNs\n"
+         << "    " << cpp_literal(desc.dictionary()) << ", // dictionary\n"
          << "    " << filebase_ << "_templates_instructions)\n"
          << "{\n"
          << "}\n\n"
@@ -616,7 +623,7 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
       if (i != 0) {
         out_ << ",\n";
       }
-      out_ << "  \"" << inst->elements()[i] << "\"";
+      out_ << "  " << cpp_literal(inst->elements()[i]);
     }
     out_ << "};\n";
 
@@ -643,13 +650,13 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
        << "  " << get_operator_name(inst) << ",\n"
        << "  " << get_presence(inst) << ",\n"
        << "  " << inst->id() << ", // id\n"
-       << "  \"" << inst->name() << "\", // name\n"
-       << "  \"" << inst->ns() << "\", // ns\n"
+       << "  " << cpp_literal(inst->name()) << ", // name\n"
+       << "  " << cpp_literal(inst->ns()) << ", // ns\n"
        << "  " << context << ",  // opContext\n"
        << "  int_value_storage<uint64_t>(";
 
   if (!init_value.is_empty())
-    out_ << init_value.get<uint64_t>();
+    out_ << init_value.get<uint64_t>() << "ULL";
 
   out_ << "), // initial_value\n"
        << "  " << elements_variable_name.str() << ", // element names\n"
@@ -705,7 +712,7 @@ void cpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
     {
       if (i != 0)
         out_ << ",\n";
-      out_ << "  \"" << inst->elements()[i] << "\"";
+      out_ << "  " << cpp_literal(inst->elements()[i]);
     }
     out_ << "};\n";
   }
@@ -718,13 +725,13 @@ void cpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
        << "  " << get_operator_name(inst) << ",\n"
        << "  " << get_presence(inst) << ",\n"
        << "  " << inst->id() << ", // id\n"
-       << "  \"" << inst->name() << "\", // name\n"
-       << "  \"" << inst->ns() << "\", // ns\n"
+       << "  " << cpp_literal(inst->name()) << ", // name\n"
+       << "  " << cpp_literal(inst->ns()) << ", // ns\n"
        << "  " << context << ",  // opContext\n"
        << "  int_value_storage<uint64_t>(";
 
   if (!init_value.is_empty())
-    out_ << init_value.get<uint64_t>();
+    out_ << init_value.get<uint64_t>() << "ULL";
 
   out_ <<  "), // initial_value\n"
        << "  " << elements_variable_name.str() << ", // element names\n"
@@ -781,7 +788,7 @@ void cpp_gen::generate(const mfast::aggregate_view_info &info) {
   }
 
   out_ << "const mfast::aggregate_view_info " << my_name << "::info_(\n"
-       << "  \"" << info.name_ << "\",\n"
+       << "  " << cpp_literal(info.name_) << ",\n"
        << "  " << ns_prefix << cpp_name(info.instruction_->name())
        << "::instruction(),\n"
        << "  mfast::array_view<const  mfast::field_view_info>(__" << my_name
diff --git a/src/fast_type_gen/cpp_gen.h b/src/fast_type_gen/cpp_gen.h
index 84ccc79..a8db75b 100644
--- a/src/fast_type_gen/cpp_gen.h
+++ b/src/fast_type_gen/cpp_gen.h
@@ -56,6 +56,7 @@ private:
                    void *pIndex);
   void gen_string(const mfast::ascii_field_instruction *inst,
                   const char *charset, void *pIndex);
+  void gen_length(const mfast::unicode_field_instruction *inst);
 
   void gen_int_vector(const char *cpp_type,
                       const mfast::vector_field_instruction_base *inst,
-- 
2.43.0


From 3815a927d4b8bc4da57562ebb4fc15a3aa311f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:37 +0000
Subject: [PATCH 113/119] fix: generated code of sequences of a referred type
 did not compile with the coders

---
 src/fast_type_gen/inl_gen.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fast_type_gen/inl_gen.cpp b/src/fast_type_gen/inl_gen.cpp
index 6cf01b4..00ee92b 100644
--- a/src/fast_type_gen/inl_gen.cpp
+++ b/src/fast_type_gen/inl_gen.cpp
@@ -155,7 +155,8 @@ void ext_cref_type_getter::visit(const sequence_field_instruction *inst,
   out_ << "ext_cref< sequence_cref, ext_cref<uint32_cref, "
        << get_operator_tag(length_inst) << ", "
        << get_properties_type(length_inst) << ">, ";
-  if (element_inst)
+  // the elements of a referred type are coded like those defined in place
+  if (element_inst && !inst->element_instruction())
     out_ << "ext_cref< typename " << codegen_base::cpp_name(inst)
          << "_cref::reference, " << get_operator_tag(element_inst) << ", "
          << get_properties_type(element_inst) << " > >";
@@ -287,7 +288,8 @@ void ext_mref_type_getter::visit(const sequence_field_instruction *inst,
   out_ << "ext_mref< sequence_mref, ext_mref<uint32_mref, "
        << get_operator_tag(length_inst) << ", "
        << get_properties_type(length_inst) << ">, ";
-  if (element_inst && element_inst != inst)
+  // the elements of a referred type are coded like those defined in place
+  if (element_inst && !inst->element_instruction())
     out_ << "ext_mref< typename " << codegen_base::cpp_name(inst)
          << "_mref::reference, " << get_operator_tag(element_inst) << ", "
          << get_properties_type(element_inst) << " > >";
-- 
2.43.0


From f5f3596cda35d71fc89f75f08ab9f3bd3dbce116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:06 +0000
Subject: [PATCH 114/119] fix: types given another name by a define, and types
 of other files, made generated code not compile

---
 src/fast_type_gen/cpp_gen.cpp | 8 ++++++++
 src/fast_type_gen/hpp_gen.cpp | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index d239758..7f2c7d6 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -583,6 +583,10 @@ void cpp_gen::generate(mfast::dynamic_templates_description &desc) {
 }
 
 void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
+  // the header defines another name for the referred type only
+  if (pIndex == nullptr && inst->ref_instruction())
+    return;
+
   std::string name(cpp_name(inst));
   std::string qualified_name = name;
   std::string instruction_variable_name;
@@ -674,6 +678,10 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
 
 void cpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
 {
+  // the header defines another name for the referred type only
+  if (pIndex == nullptr && inst->ref_instruction())
+    return;
+
   std::string name(cpp_name(inst));
   std::string qualified_name = name;
   std::string instruction_variable_name;
diff --git a/src/fast_type_gen/hpp_gen.cpp b/src/fast_type_gen/hpp_gen.cpp
index a5360b8..a862852 100644
--- a/src/fast_type_gen/hpp_gen.cpp
+++ b/src/fast_type_gen/hpp_gen.cpp
@@ -587,7 +587,9 @@ void hpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
     {
       for (auto &&ns : outer_ns_)
         enum_namespace += ns + "::";
-      enum_namespace += filebase_ + "::";
+      // the types of other files are qualified already
+      if (actual_type_name.find("::") == std::string::npos)
+        enum_namespace += filebase_ + "::";
     }
     header_cref_ << indent << "typedef " << enum_namespace << actual_type_name << "_cref " << name
                  << "_cref;\n";
-- 
2.43.0


From 45b65a6e55ee0478296acba20361e1fe2a3892d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:46 +0000
Subject: [PATCH 115/119] fix: mandatory tail and delta fields with an initial
 value were refused by the decoder of generated types

---
 src/mfast/ext_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/ext_ref.h b/src/mfast/ext_ref.h
index 3c606a2..7fc3742 100644
--- a/src/mfast/ext_ref.h
+++ b/src/mfast/ext_ref.h
@@ -58,7 +58,7 @@ struct ext_ref_properties : presence_checker<Properties> {
                                  (OperatorType::value != operator_constant &&
                                   IsOptional)> is_nullable_type;
   typedef std::integral_constant<
-      bool, ((OperatorType::value & field_has_initial_value) > 0 &&
+      bool, ((Properties::value & field_has_initial_value) == 0 &&
              !IsOptional)> mandatory_without_initial_value_type;
   typedef std::integral_constant<bool,
                                  (OperatorType::value > operator_delta ||
-- 
2.43.0


From 95a5fff19220f2c22f640dfa2f29d222fb00a3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:46 +0000
Subject: [PATCH 116/119] fix: send NULL for absent fields with a default value
 in groups and sequences of generated types

---
 src/mfast/coder/encoder_v2/fast_encoder_core.cpp |  1 +
 src/mfast/coder/encoder_v2/fast_encoder_core.h   | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.cpp b/src/mfast/coder/encoder_v2/fast_encoder_core.cpp
index 94cd945..a08293b 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.cpp
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.cpp
@@ -24,6 +24,7 @@ void fast_encoder_core::encode_segment(const message_cref cref,
 
   encoder_presence_map pmap;
   this->current_ = &pmap;
+  this->in_nested_segment_ = false;
   constexpr std::size_t template_id_bit = 1;
   pmap.init(&this->strm_, std::max<std::size_t>(instruction->segment_pmap_size() + template_id_bit, 1));
   pmap.set_next_bit(need_encode_template_id);
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 0106ef9..a32c115 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -162,23 +162,28 @@ struct MFAST_CODER_EXPORT fast_encoder_core : mfast::detail::codec_helper {
   fast_ostream strm_;
   info_entry *active_message_info_;
   encoder_presence_map *current_;
+  bool in_nested_segment_; // inside of a group or an element of a sequence
 };
 
 template <typename T> class encoder_pmap_saver {
   encoder_presence_map pmap_;
   encoder_presence_map *prev_pmap_;
+  bool prev_in_nested_segment_;
   fast_encoder_core *core_;
 
 public:
   encoder_pmap_saver(fast_encoder_core *core)
-      : prev_pmap_(core->current_), core_(core) {
+      : prev_pmap_(core->current_),
+        prev_in_nested_segment_(core->in_nested_segment_), core_(core) {
     core_->current_ = &pmap_;
+    core_->in_nested_segment_ = true;
     this->pmap_.init(&core_->strm_, T::value);
   }
 
   ~encoder_pmap_saver() {
     this->pmap_.commit();
     core_->current_ = this->prev_pmap_;
+    core_->in_nested_segment_ = this->prev_in_nested_segment_;
   }
 };
 
@@ -190,7 +195,7 @@ public:
 
 inline fast_encoder_core::fast_encoder_core(allocator *alloc)
     : repo_(alloc), strm_(alloc), active_message_info_(nullptr),
-      current_(nullptr) {}
+      current_(nullptr), in_nested_segment_(false) {}
 
 template <typename Message>
 void fast_encoder_core::encode_message(const message_cref &cref) {
@@ -240,8 +245,10 @@ inline void fast_encoder_core::visit(const nested_message_cref &cref) {
 
   info_entry *saved_message_info = active_message_info_;
   encoder_presence_map *prev_pmap = this->current_;
+  const bool prev_in_nested_segment = this->in_nested_segment_;
   encode_segment(cref.target(), false);
   this->current_ = prev_pmap;
+  this->in_nested_segment_ = prev_in_nested_segment;
   active_message_info_ = saved_message_info;
 }
 
@@ -521,7 +528,10 @@ void fast_encoder_core::encode_field(const T &ext_ref, default_operator_tag,
     return;
   }
 
-  if (ext_ref.optional() && !ext_ref.present()) {
+  if (ext_ref.optional() && !ext_ref.present() &&
+      !in_nested_segment_) {
+    // An absent field of a message with a default value is left to the
+    // decoder's default.
     pmap.set_next_bit(false);
     return;
   }
-- 
2.43.0


From 701768bf5a33b9e6f6fc3a22b2879af27b639952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:50 +0000
Subject: [PATCH 117/119] fix: numbers, row ids and text with a NUL were
 truncated and empty strings became NULL in exported SQLite rows

---
 src/mfast/sqlite3/aggregate_inserter.cpp |  2 +-
 src/mfast/sqlite3/converter_core.cpp     | 41 +++++++++++++-----------
 src/mfast/sqlite3/converter_core.h       |  7 ++--
 src/mfast/sqlite3/first_pass_visitor.h   |  4 +--
 src/mfast/sqlite3/third_pass_visitor.cpp |  2 +-
 src/mfast/sqlite3/third_pass_visitor.h   |  2 +-
 src/mfast/sqlite3/value_binder.h         |  1 +
 7 files changed, 33 insertions(+), 26 deletions(-)

diff --git a/src/mfast/sqlite3/aggregate_inserter.cpp b/src/mfast/sqlite3/aggregate_inserter.cpp
index 4e1c857..3f95a07 100644
--- a/src/mfast/sqlite3/aggregate_inserter.cpp
+++ b/src/mfast/sqlite3/aggregate_inserter.cpp
@@ -11,7 +11,7 @@ aggregate_inserter::aggregate_inserter(const converter_core &core)
 
 field_cref aggregate_inserter::insert(const aggregate_cref &ref,
                                       const field_cref &foreign_key) {
-  int rowid = 0;
+  int64_t rowid = 0;
   first_pass_visitor first_vistor(core_, ref.instruction(), foreign_key);
   first_vistor.visit(ref, 0);
   rowid = first_vistor.inserted_id();
diff --git a/src/mfast/sqlite3/converter_core.cpp b/src/mfast/sqlite3/converter_core.cpp
index 59ebfde..0845891 100644
--- a/src/mfast/sqlite3/converter_core.cpp
+++ b/src/mfast/sqlite3/converter_core.cpp
@@ -105,14 +105,14 @@ field_cref converter_core::primary_key_of(const aggregate_cref &ref) const {
   return ref[primary_key_index];
 }
 
-int converter_core::exec_stmt(const template_info &info) const {
+int64_t converter_core::exec_stmt(const template_info &info) const {
 #if 0
       std::cout << "executing " << info.insert_text_ << "\n"
                 << "with binding : " << format_binding(info.binding_) << "\n";
 #endif
   if (sqlite3_step(info.insert_stmt_) == SQLITE_DONE) {
     sqlite3_reset(info.insert_stmt_);
-    int rowid = sqlite3_last_insert_rowid(db_);
+    int64_t rowid = sqlite3_last_insert_rowid(db_);
     return rowid;
   }
 
@@ -125,7 +125,7 @@ int converter_core::exec_stmt(const template_info &info) const {
 #endif
     int ret = sqlite3_step(info.find_key_stmt_);
     if (ret == SQLITE_ROW) {
-      int result = sqlite3_column_int(info.find_key_stmt_, 0);
+      int64_t result = sqlite3_column_int64(info.find_key_stmt_, 0);
 #if 0
       std::cout << "rowid found at " << result << "\n";
 #endif
@@ -144,12 +144,12 @@ void converter_core::bind(const template_info &info, unsigned column,
                           int64_t value) const {
   info.binding_[column] = boost::lexical_cast<std::string>(value);
 
-  if (sqlite3_bind_int(info.insert_stmt_, column, value) != SQLITE_OK)
-    BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_bind_int"));
+  if (sqlite3_bind_int64(info.insert_stmt_, column, value) != SQLITE_OK)
+    BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_bind_int64"));
 
   if (info.find_key_stmt_)
-    if (sqlite3_bind_int(info.find_key_stmt_, column, value) != SQLITE_OK)
-      BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_bind_int"));
+    if (sqlite3_bind_int64(info.find_key_stmt_, column, value) != SQLITE_OK)
+      BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_bind_int64"));
 }
 
 void converter_core::bind(const template_info &info, unsigned column,
@@ -169,15 +169,17 @@ void converter_core::bind(const template_info &info, unsigned column,
 }
 
 void converter_core::bind(const template_info &info, unsigned column,
-                          const char *str) const {
-  info.binding_[column] = str;
+                          const char *str, std::size_t length) const {
+  if (length == 0)
+    str = ""; // a null pointer would be bound as NULL
+  info.binding_[column] = std::string(str, length);
 
-  if (sqlite3_bind_text(info.insert_stmt_, column, str, -1, SQLITE_STATIC) !=
-      SQLITE_OK)
+  if (sqlite3_bind_text64(info.insert_stmt_, column, str, length,
+                          SQLITE_STATIC, SQLITE_UTF8) != SQLITE_OK)
     BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_bind_text"));
   if (info.find_key_stmt_)
-    if (sqlite3_bind_text(info.find_key_stmt_, column, str, -1,
-                          SQLITE_STATIC) != SQLITE_OK)
+    if (sqlite3_bind_text64(info.find_key_stmt_, column, str, length,
+                            SQLITE_STATIC, SQLITE_UTF8) != SQLITE_OK)
       BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_bind_text"));
 }
 
@@ -194,11 +196,14 @@ void converter_core::bind(const template_info &info, unsigned column,
   strm << "\",";
   info.binding_[column] = strm.str();
 
-  if (sqlite3_bind_blob(info.insert_stmt_, column, ref.data(), ref.size(),
+  // a null pointer would be bound as NULL
+  const void *data = ref.size() ? static_cast<const void *>(ref.data()) : "";
+
+  if (sqlite3_bind_blob(info.insert_stmt_, column, data, ref.size(),
                         SQLITE_STATIC) != SQLITE_OK)
     BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_bind_blob"));
   if (info.find_key_stmt_)
-    if (sqlite3_bind_blob(info.find_key_stmt_, column, ref.data(), ref.size(),
+    if (sqlite3_bind_blob(info.find_key_stmt_, column, data, ref.size(),
                           SQLITE_STATIC) != SQLITE_OK)
       BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_bind_blob"));
 }
@@ -229,9 +234,9 @@ public:
                static_cast<value_storage *>(storage)->get<int64_t>());
   }
 
-  void visit(const ascii_field_instruction *, void *storage) {
-    core_.bind(info_, column_,
-               static_cast<value_storage *>(storage)->get<const char *>());
+  void visit(const ascii_field_instruction *inst, void *storage) {
+    ascii_string_cref ref(static_cast<value_storage *>(storage), inst);
+    core_.bind(info_, column_, ref);
   }
 
   void visit(const byte_vector_field_instruction *inst, void *storage) {
diff --git a/src/mfast/sqlite3/converter_core.h b/src/mfast/sqlite3/converter_core.h
index 04cd11d..3af0eb2 100644
--- a/src/mfast/sqlite3/converter_core.h
+++ b/src/mfast/sqlite3/converter_core.h
@@ -27,7 +27,7 @@ public:
 
   field_cref primary_key_of(const aggregate_cref &ref) const;
 
-  int exec_stmt(const template_info &info) const;
+  int64_t exec_stmt(const template_info &info) const;
 
   void bind(const template_info &info, unsigned column, int64_t value) const;
 
@@ -44,12 +44,13 @@ public:
 
   void bind(const template_info &info, unsigned column,
             const decimal_cref &ref) const;
-  void bind(const template_info &info, unsigned column, const char *str) const;
+  void bind(const template_info &info, unsigned column, const char *str,
+            std::size_t length) const;
 
   template <typename T>
   void bind(const template_info &info, unsigned column,
             const string_cref<T> &ref) const {
-    bind(info, column, ref.c_str());
+    bind(info, column, ref.data(), ref.size());
   }
 
   void bind(const template_info &info, unsigned column,
diff --git a/src/mfast/sqlite3/first_pass_visitor.h b/src/mfast/sqlite3/first_pass_visitor.h
index 0aefbfa..3d5bb3f 100644
--- a/src/mfast/sqlite3/first_pass_visitor.h
+++ b/src/mfast/sqlite3/first_pass_visitor.h
@@ -8,7 +8,7 @@ namespace SQLite3 {
 class first_pass_visitor : value_binder {
   bool nested_group_pass_needed_;
   bool nested_sequence_pass_needed_;
-  int rowid_;
+  int64_t rowid_;
 
 public:
   first_pass_visitor(const converter_core &core,
@@ -32,7 +32,7 @@ public:
   void visit(const sequence_cref &ref, int);
   void visit(const aggregate_cref &ref, int);
 
-  int inserted_id() const { return rowid_; }
+  int64_t inserted_id() const { return rowid_; }
   bool nested_group_pass_needed() const { return nested_group_pass_needed_; }
   bool nested_sequence_pass_needed() const {
     return nested_sequence_pass_needed_;
diff --git a/src/mfast/sqlite3/third_pass_visitor.cpp b/src/mfast/sqlite3/third_pass_visitor.cpp
index a4d8148..2e9a786 100644
--- a/src/mfast/sqlite3/third_pass_visitor.cpp
+++ b/src/mfast/sqlite3/third_pass_visitor.cpp
@@ -3,7 +3,7 @@
 #include "sequence_inserter.h"
 namespace mfast {
 namespace SQLite3 {
-void third_pass_visitor::visit(const aggregate_cref &ref, int rowid) {
+void third_pass_visitor::visit(const aggregate_cref &ref, int64_t rowid) {
 
   primary_key_.refers_to(core_.primary_key_of(ref));
 
diff --git a/src/mfast/sqlite3/third_pass_visitor.h b/src/mfast/sqlite3/third_pass_visitor.h
index 3354ee1..899a1ad 100644
--- a/src/mfast/sqlite3/third_pass_visitor.h
+++ b/src/mfast/sqlite3/third_pass_visitor.h
@@ -15,7 +15,7 @@ public:
 
   void visit(const group_cref &ref, int);
   void visit(const sequence_cref &ref, int);
-  void visit(const aggregate_cref &ref, int rowid);
+  void visit(const aggregate_cref &ref, int64_t rowid);
 };
 
 } /* SQLite3 */
diff --git a/src/mfast/sqlite3/value_binder.h b/src/mfast/sqlite3/value_binder.h
index b70ade2..4e9ba21 100644
--- a/src/mfast/sqlite3/value_binder.h
+++ b/src/mfast/sqlite3/value_binder.h
@@ -24,6 +24,7 @@ public:
       current_column_++;
     } catch (boost::exception &ex) {
       ex << table_column_info(current_column_) << field_name_info(ref.name());
+      throw;
     }
   }
 };
-- 
2.43.0


From 9b2cc59a725489b0f60bd13a5ae5b950c7e129d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:50 +0000
Subject: [PATCH 118/119] fix: a refused SQLite insert made the next ones fail,
 and the database stayed open

---
 src/mfast/sqlite3/converter_core.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mfast/sqlite3/converter_core.cpp b/src/mfast/sqlite3/converter_core.cpp
index 0845891..a3e529e 100644
--- a/src/mfast/sqlite3/converter_core.cpp
+++ b/src/mfast/sqlite3/converter_core.cpp
@@ -36,7 +36,14 @@ converter_core::converter_core(const char *dbfile, const field_masks &mask)
   }
 }
 
-converter_core::~converter_core() { sqlite3_close(db_); }
+converter_core::~converter_core() {
+  // a connection with statements cannot be closed
+  for (auto &&v : infos_) {
+    sqlite3_finalize(v.second.insert_stmt_);
+    sqlite3_finalize(v.second.find_key_stmt_);
+  }
+  sqlite3_close(db_);
+}
 
 void converter_core::add(const template_instruction *inst,
                          bool to_create_tables) {
@@ -117,6 +124,8 @@ int64_t converter_core::exec_stmt(const template_info &info) const {
   }
 
   std::string saved_reason = sqlite3_errmsg(db_);
+  // reset, so that the statements can be used again in any case
+  sqlite3_reset(info.insert_stmt_);
 
   if (info.find_key_stmt_) {
 #if 0
@@ -129,10 +138,10 @@ int64_t converter_core::exec_stmt(const template_info &info) const {
 #if 0
       std::cout << "rowid found at " << result << "\n";
 #endif
-      sqlite3_reset(info.insert_stmt_);
       sqlite3_reset(info.find_key_stmt_);
       return result;
     }
+    sqlite3_reset(info.find_key_stmt_);
   }
   BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_step")
                         << statement_info(info.insert_text_)
-- 
2.43.0


From 41003d644f7f06de7aa6d3cfbfa628f5fd9c101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:50 +0000
Subject: [PATCH 119/119] fix: columns after absent groups and sequences were
 shifted or stale in exported SQLite rows

---
 src/mfast/sqlite3/aggregate_inserter.cpp  |  1 +
 src/mfast/sqlite3/converter_core.cpp      | 27 ++++++++++++++++
 src/mfast/sqlite3/converter_core.h        |  3 ++
 src/mfast/sqlite3/first_pass_visitor.cpp  | 39 +++++++++++++++--------
 src/mfast/sqlite3/second_pass_visitor.cpp |  6 ++--
 src/mfast/sqlite3/second_pass_visitor.h   | 17 ++++++++--
 src/mfast/sqlite3/sequence_inserter.h     | 19 ++++++++---
 src/mfast/sqlite3/value_binder.h          |  2 ++
 8 files changed, 92 insertions(+), 22 deletions(-)

diff --git a/src/mfast/sqlite3/aggregate_inserter.cpp b/src/mfast/sqlite3/aggregate_inserter.cpp
index 3f95a07..8439347 100644
--- a/src/mfast/sqlite3/aggregate_inserter.cpp
+++ b/src/mfast/sqlite3/aggregate_inserter.cpp
@@ -19,6 +19,7 @@ field_cref aggregate_inserter::insert(const aggregate_cref &ref,
     second_pass_visitor second_vistor(core_, ref.instruction(),
                                       foreign_key.absent() ? 1 : 2);
     second_vistor.visit(ref, 0);
+    rowid = second_vistor.inserted_id();
   }
 
   if (first_vistor.nested_group_pass_needed()) {
diff --git a/src/mfast/sqlite3/converter_core.cpp b/src/mfast/sqlite3/converter_core.cpp
index a3e529e..3152769 100644
--- a/src/mfast/sqlite3/converter_core.cpp
+++ b/src/mfast/sqlite3/converter_core.cpp
@@ -228,6 +228,33 @@ void converter_core::bind_null(const template_info &info,
       BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_bind_null"));
 }
 
+unsigned converter_core::num_columns(const field_instruction *inst) const {
+  if (inst->field_type() != field_type_group &&
+      inst->field_type() != field_type_sequence)
+    return 1;
+  const group_field_instruction *group =
+      static_cast<const group_field_instruction *>(inst);
+  unsigned result = 0;
+  if (inst->field_type() == field_type_group) {
+    if (group->ref_instruction())
+      return 0;
+  } else {
+    const sequence_field_instruction *seq =
+        static_cast<const sequence_field_instruction *>(inst);
+    if (dynamic_cast<const template_instruction *>(seq->ref_instruction()))
+      return 0;
+    if (is_ordered(seq))
+      ++result;
+    if (dynamic_cast<const template_instruction *>(seq->element_instruction()))
+      return result + 1;
+  }
+  for (auto sub : group->subinstructions()) {
+    if (!to_skip(sub))
+      result += num_columns(sub);
+  }
+  return result;
+}
+
 class field_cref_binder : public field_instruction_visitor_ex {
   const converter_core &core_;
   const template_info &info_;
diff --git a/src/mfast/sqlite3/converter_core.h b/src/mfast/sqlite3/converter_core.h
index 3af0eb2..57cecdf 100644
--- a/src/mfast/sqlite3/converter_core.h
+++ b/src/mfast/sqlite3/converter_core.h
@@ -56,6 +56,9 @@ public:
   void bind(const template_info &info, unsigned column,
             const byte_vector_cref &ref) const;
 
+  // how many columns a field has in the table of its parent
+  unsigned num_columns(const field_instruction *inst) const;
+
   void bind_null(const template_info &info, unsigned column) const;
 
   void bind(const template_info &info, unsigned column,
diff --git a/src/mfast/sqlite3/first_pass_visitor.cpp b/src/mfast/sqlite3/first_pass_visitor.cpp
index 2efde54..1b2c5b2 100644
--- a/src/mfast/sqlite3/first_pass_visitor.cpp
+++ b/src/mfast/sqlite3/first_pass_visitor.cpp
@@ -47,25 +47,40 @@ public:
     }
   }
 
-  void visit(const sequence_field_instruction *, void *) {
-    BOOST_THROW_EXCEPTION(
-        std::runtime_error("deeply nested sequence is not supported"));
-  }
+  void visit(const sequence_field_instruction *inst, void *) { bind(inst); }
 
   void visit(const template_instruction *inst, void *) {
     traverse_aggregate(inst);
   }
 
+  // all the columns which a sequence has in the table of its parent
   void bind(const sequence_field_instruction *inst) {
-    traverse_aggregate(inst);
+    if (dynamic_cast<const template_instruction *>(inst->ref_instruction()))
+      return;
+    if (dynamic_cast<const template_instruction *>(inst->element_instruction()))
+      core_.bind_null(info_, current_column_++);
+    else
+      traverse_aggregate(inst);
+    if (core_.is_ordered(inst))
+      core_.bind_null(info_, current_column_++);
   }
 };
 
+void value_binder::bind_absent(const field_instruction *inst) {
+  if (inst->field_type() == field_type_group ||
+      inst->field_type() == field_type_sequence) {
+    null_binder_visitor binder(core_, info_, current_column_);
+    inst->accept(binder, nullptr);
+  } else {
+    this->bind_null();
+  }
+}
+
 first_pass_visitor::first_pass_visitor(const converter_core &core,
                                        const group_field_instruction *inst,
                                        const field_cref &foreign_key)
     : value_binder(core, core.info(inst), 1), nested_group_pass_needed_(false),
-      nested_sequence_pass_needed_(false) {
+      nested_sequence_pass_needed_(false), rowid_(0) {
   if (foreign_key.present())
     this->bind(foreign_key);
 }
@@ -76,16 +91,12 @@ void first_pass_visitor::visit(const sequence_cref &ref, int) {
   const template_instruction *ref_instruction =
       dynamic_cast<const template_instruction *>(inst->ref_instruction());
 
-  const template_instruction *element_instruction =
-      dynamic_cast<const template_instruction *>(inst->element_instruction());
-
-  if (ref_instruction == nullptr && element_instruction == nullptr) {
-    null_binder_visitor binder(core_, info_, current_column_);
-    binder.bind(inst);
+  if (ref_instruction == nullptr) {
+    this->bind_absent(inst);
+    nested_sequence_pass_needed_ = true;
   } else {
     nested_group_pass_needed_ = true;
   }
-  nested_sequence_pass_needed_ = (ref_instruction == nullptr);
 }
 
 void first_pass_visitor::visit(const aggregate_cref &ref, int) {
@@ -103,7 +114,7 @@ void first_pass_visitor::traverse(const aggregate_cref &ref) {
     field_cref field(ref[i]);
     if (!core_.to_skip(field)) {
       if (field.absent()) {
-        this->bind_null();
+        this->bind_absent(field.instruction());
       } else {
         apply_accessor(*this, field);
       }
diff --git a/src/mfast/sqlite3/second_pass_visitor.cpp b/src/mfast/sqlite3/second_pass_visitor.cpp
index 37f8dcf..4b8a827 100644
--- a/src/mfast/sqlite3/second_pass_visitor.cpp
+++ b/src/mfast/sqlite3/second_pass_visitor.cpp
@@ -27,20 +27,22 @@ void second_pass_visitor::visit(const sequence_cref &ref, int) {
           core_.bind(this->info_, column_index_, key_ref);
           if (is_ordered)
             core_.bind(this->info_, column_index_ + 1, i);
-          core_.exec_stmt(this->info_);
+          executed(core_.exec_stmt(this->info_));
         }
       } else { // element_instruction == 0
         // bind the nested values in the current statement
         sequence_inserter seq_inserter(core_, this->info_, column_index_,
                                        is_ordered);
         seq_inserter.visit(ref, 0);
+        executed(seq_inserter.inserted_id());
       }
     } else {
       // there is no element in the sequence, the columns related to the
       // sequence has been binded to null in the
       // first pass, just execute the statement
-      core_.exec_stmt(this->info_);
+      executed(core_.exec_stmt(this->info_));
     }
+    column_index_ += core_.num_columns(inst);
   }
 }
 
diff --git a/src/mfast/sqlite3/second_pass_visitor.h b/src/mfast/sqlite3/second_pass_visitor.h
index 2ced382..40b2b53 100644
--- a/src/mfast/sqlite3/second_pass_visitor.h
+++ b/src/mfast/sqlite3/second_pass_visitor.h
@@ -8,12 +8,17 @@ class second_pass_visitor {
   const converter_core &core_;
   const template_info &info_;
   unsigned column_index_;
+  int64_t rowid_;
 
 public:
   second_pass_visitor(const converter_core &core,
                       const group_field_instruction *inst,
                       unsigned start_column = 1)
-      : core_(core), info_(core.info(inst)), column_index_(start_column) {}
+      : core_(core), info_(core.info(inst)), column_index_(start_column),
+        rowid_(0) {}
+
+  // the first row which was inserted
+  int64_t inserted_id() const { return rowid_; }
 
   template <typename CREF> void visit(const CREF &) { ++column_index_; }
 
@@ -34,11 +39,19 @@ public:
   void visit(const sequence_cref &ref, int);
 
 private:
+  void executed(int64_t id) {
+    if (rowid_ == 0)
+      rowid_ = id;
+  }
+
   void traverse(const aggregate_cref &ref) {
     for (std::size_t i = 0; i < ref.num_fields(); ++i) {
       field_cref field(ref[i]);
       if (!core_.to_skip(field)) {
-        apply_accessor(*this, field);
+        if (field.present())
+          apply_accessor(*this, field);
+        else
+          column_index_ += core_.num_columns(field.instruction());
       }
     }
   }
diff --git a/src/mfast/sqlite3/sequence_inserter.h b/src/mfast/sqlite3/sequence_inserter.h
index 555c06c..a3031d2 100644
--- a/src/mfast/sqlite3/sequence_inserter.h
+++ b/src/mfast/sqlite3/sequence_inserter.h
@@ -7,12 +7,16 @@ namespace SQLite3 {
 class sequence_inserter : value_binder {
   unsigned start_column_;
   bool ordered_;
+  int64_t rowid_;
 
 public:
   sequence_inserter(const converter_core &core, const template_info &info,
                     unsigned start_column, bool ordered)
       : value_binder(core, info, start_column), start_column_(start_column),
-        ordered_(ordered) {}
+        ordered_(ordered), rowid_(0) {}
+
+  // the first row which was inserted
+  int64_t inserted_id() const { return rowid_; }
 
   template <typename CREF> void visit(const CREF &ref) { bind(ref); }
 
@@ -21,7 +25,7 @@ public:
       core_.bind(info_, start_column_, ref[i]);
       if (ordered_)
         core_.bind(info_, start_column_ + 1, i);
-      core_.exec_stmt(info_);
+      this->exec();
     }
   }
 
@@ -30,7 +34,7 @@ public:
       field_cref field(cref[i]);
       if (!core_.to_skip(field)) {
         if (field.absent()) {
-          this->bind_null();
+          this->bind_absent(field.instruction());
         } else {
           apply_accessor(*this, field);
         }
@@ -44,9 +48,16 @@ public:
       this->visit(ref[i], i);
       if (ordered_)
         core_.bind(info_, current_column_, i);
-      core_.exec_stmt(info_);
+      this->exec();
     }
   }
+
+private:
+  void exec() {
+    int64_t id = core_.exec_stmt(info_);
+    if (rowid_ == 0)
+      rowid_ = id;
+  }
 };
 
 } /* SQLite3 */
diff --git a/src/mfast/sqlite3/value_binder.h b/src/mfast/sqlite3/value_binder.h
index 4e9ba21..bf1a675 100644
--- a/src/mfast/sqlite3/value_binder.h
+++ b/src/mfast/sqlite3/value_binder.h
@@ -12,6 +12,8 @@ protected:
 
   void bind_int(int64_t value) { core_.bind(info_, current_column_++, value); }
   void bind_null() { core_.bind_null(info_, current_column_++); }
+  // binds NULL to all the columns of an absent field
+  void bind_absent(const field_instruction *inst);
 
 public:
   value_binder(const converter_core &core, const template_info &info,
-- 
2.43.0

