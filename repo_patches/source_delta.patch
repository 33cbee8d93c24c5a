From b42571dc76514cddaebefe3c1b0b854cb65887a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 01/83] fix: resolve the initial value of an enum defined in
 place by its element

The initial value was compared while the elements were still being read,
set to the element index rather than its value and left marked undefined,
so that any element but the first was rejected.
---
 src/mfast/xml_parser/field_builder.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 367d7ba..e173558 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -608,9 +608,6 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
       if (name_attr == nullptr)
         name_attr = xml_element->Attribute("name");
       if (name_attr != nullptr) {
-        if (init_value_str && std::strcmp(name_attr, init_value_str) == 0) {
-          fop.initial_value_.set<uint64_t>(names.size());
-        }
         names.push_back(string_dup(name_attr, alloc()));
 
         const char *value_str = xml_element->Attribute("value");
@@ -644,8 +641,10 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
       std::copy(values.begin(), values.end(), values_array);
       enum_element_values = values_array;
     }
-  } else if (init_value_str) {
-    // In this case, the element names are already defined, but we haven't
+  }
+
+  if (init_value_str) {
+    // The element names are already defined at this point, but we haven't
     // decide what the specified
     // initial value is.
 
@@ -713,9 +712,6 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
          xml_element = xml_element->NextSiblingElement("element")) {
       const char *name_attr = xml_element->Attribute("name");
       if (name_attr != nullptr) {
-        if (init_value_str && std::strcmp(name_attr, init_value_str) == 0) {
-          fop.initial_value_.set<uint64_t>(names.size());
-        }
         names.push_back(string_dup(name_attr, alloc()));
 
         const char *value_str = xml_element->Attribute("value");
@@ -745,8 +741,10 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
       std::copy(values.begin(), values.end(), values_array);
       enum_element_values = values_array;
     }
-  } else if (init_value_str) {
-    // In this case, the element names are already defined, but we haven't
+  }
+
+  if (init_value_str) {
+    // The element names are already defined at this point, but we haven't
     // decide what the specified
     // initial value is.
 
-- 
2.43.0


From 39b7a3965a28b40fe49b28ab96445dfd4d7472bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:35 +0000
Subject: [PATCH 02/83] fix: parse decimals exactly

A negative decimal whose integral part is zero lost its sign and a decimal
with too many digits silently overflowed.
---
 src/mfast/value_storage.cpp | 79 +++++++++++++++++++++++++++----------
 1 file changed, 58 insertions(+), 21 deletions(-)

diff --git a/src/mfast/value_storage.cpp b/src/mfast/value_storage.cpp
index a13f00f..8268758 100644
--- a/src/mfast/value_storage.cpp
+++ b/src/mfast/value_storage.cpp
@@ -8,50 +8,87 @@
 #include <algorithm>
 #include <cstdio>
 #include <iterator>
+#include <limits>
 
 namespace mfast {
+namespace {
+// append a decimal digit to a value which is accumulated with its own sign so
+// that the whole range of int64_t is available; returns false on overflow
+inline bool append_digit(int64_t &value, bool negative, int digit) {
+  const int64_t min_value = (std::numeric_limits<int64_t>::min)();
+  const int64_t max_value = (std::numeric_limits<int64_t>::max)();
+  if (negative) {
+    if (value < (min_value + digit) / 10)
+      return false;
+    value = value * 10 - digit;
+  } else {
+    if (value > (max_value - digit) / 10)
+      return false;
+    value = value * 10 + digit;
+  }
+  return true;
+}
+}
+
 std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
 
-  int64_t mantissa;
-  int16_t exponent = 0;
-  if (!(strm >> std::skipws >> mantissa)) {
+  strm >> std::skipws;
+  std::istream::sentry se(strm); // skips whitespaces
+  if (!se) {
     return strm;
   }
-  // BOOST_THROW_EXCEPTION(json_decode_error(strm, "Expect decimal"));
 
   std::streambuf *sbuf = strm.rdbuf();
+  int64_t mantissa = 0;
+  long exponent = 0;
+  bool negative = false;
+  bool has_digits = false;
+
+  int c = sbuf->sgetc();
+  if (c == '-' || c == '+') {
+    negative = (c == '-');
+    c = sbuf->snextc();
+  }
 
-  int c = sbuf->sbumpc();
-  if (c == '.') {
-    bool negative = false;
-
-    if (mantissa < 0) {
-      negative = true;
-      mantissa = -mantissa;
+  for (; c >= '0' && c <= '9'; c = sbuf->snextc()) {
+    has_digits = true;
+    if (!append_digit(mantissa, negative, c - '0')) {
+      strm.setstate(std::ios_base::failbit);
+      return strm;
     }
+  }
 
-    while ((c = sbuf->sbumpc()) != EOF && isdigit(c)) {
-      mantissa *= 10;
-      mantissa += c - '0';
-      exponent -= 1;
-    }
+  if (!has_digits) {
+    strm.setstate(std::ios_base::failbit);
+    return strm;
+  }
 
-    if (negative) {
-      mantissa = -mantissa;
+  if (c == '.') {
+    for (c = sbuf->snextc(); c >= '0' && c <= '9'; c = sbuf->snextc()) {
+      if (!append_digit(mantissa, negative, c - '0')) {
+        strm.setstate(std::ios_base::failbit);
+        return strm;
+      }
+      exponent -= 1;
     }
   }
 
   if (c == 'e' || c == 'E') {
+    sbuf->sbumpc();
     int16_t exp;
     if (!(strm >> exp)) {
       return strm;
     }
     exponent += exp;
-  } else if (c != EOF) {
-    strm.putback(c);
+  }
+
+  if (exponent < (std::numeric_limits<int16_t>::min)() ||
+      exponent > (std::numeric_limits<int16_t>::max)()) {
+    strm.setstate(std::ios_base::failbit);
+    return strm;
   }
   storage.mantissa(mantissa);
-  storage.exponent(exponent);
+  storage.exponent(static_cast<int16_t>(exponent));
   storage.storage_.present(1);
   return strm;
 }
-- 
2.43.0


From 54af4ec59fa4b1dd3a52316ded3b453a9229eb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:35 +0000
Subject: [PATCH 03/83] fix: accept decimal initial values

The initial value of a decimal field operator was converted as an integer,
so that fractions were rejected, and it was not marked as present.
---
 src/mfast/xml_parser/field_op.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mfast/xml_parser/field_op.cpp b/src/mfast/xml_parser/field_op.cpp
index 87335f1..c2b30d6 100644
--- a/src/mfast/xml_parser/field_op.cpp
+++ b/src/mfast/xml_parser/field_op.cpp
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #include <cstddef>
 #include <set>
+#include <sstream>
 #include <boost/assign.hpp>
 #include "field_op.h"
 #include "../exceptions.h"
@@ -69,9 +70,17 @@ field_op::field_op(const decimal_field_instruction *inst,
           get_optional_attr(*field_op_element, "value", nullptr);
 
       if (init_value_str) {
-        if (strcmp(element->Name(), "exponent") != 0)
-          initial_value_.set(boost::lexical_cast<int64_t>(init_value_str));
-        else {
+        if (strcmp(element->Name(), "exponent") != 0) {
+          std::istringstream strm(init_value_str);
+          decimal_value_storage init_value;
+          if (!(strm >> init_value) || strm.peek() != EOF) {
+            BOOST_THROW_EXCEPTION(
+                fast_static_error("S3")
+                << reason_info(std::string("Invalid decimal initial value: ") +
+                               init_value_str));
+          }
+          initial_value_ = init_value.storage_;
+        } else {
           short exp = 128;
           try {
             exp = boost::lexical_cast<short>(init_value_str);
-- 
2.43.0


From 5da5d29c3776e721fbafae2fdcae39de4b6c5062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:04 +0000
Subject: [PATCH 04/83] fix: never read beyond the end of the encoded input

---
 src/mfast/coder/decoder/decoder_presence_map.h | 13 +++++++++----
 src/mfast/coder/decoder/fast_istream.h         |  2 ++
 src/mfast/coder/decoder/fast_istreambuf.h      | 10 +++++++++-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/mfast/coder/decoder/decoder_presence_map.h b/src/mfast/coder/decoder/decoder_presence_map.h
index 48b04d4..7754a4c 100644
--- a/src/mfast/coder/decoder/decoder_presence_map.h
+++ b/src/mfast/coder/decoder/decoder_presence_map.h
@@ -15,11 +15,12 @@
 namespace mfast {
 class decoder_presence_map {
 public:
-  decoder_presence_map() : cur_bitmap_(0), mask_(0), continue_(nullptr) {}
+  decoder_presence_map()
+      : cur_bitmap_(0), mask_(0), continue_(nullptr), last_(nullptr) {}
   bool is_next_bit_set() {
     mask_ >>= 1;
     if (__builtin_expect(mask_ == 0 && continue_, 0)) {
-      load(continue_);
+      load(continue_, last_);
       mask_ >>= 1;
     }
     bool result = (cur_bitmap_ & mask_) != 0;
@@ -28,7 +29,7 @@ public:
 
   bool load(fast_istreambuf &buf) {
     const char *addr = buf.gptr();
-    bool result = load(addr);
+    bool result = load(addr, buf.egptr());
     buf.gbump(addr - buf.gptr());
     return result;
   }
@@ -37,10 +38,13 @@ public:
   size_t mask() const { return mask_; }
 
 private:
-  bool load(const char *&addr) {
+  bool load(const char *&addr, const char *last) {
     const int max_load_byes = sizeof(size_t) * 8 / 7;
     mask_ = 1;
+    last_ = last;
     for (int i = 0; i < max_load_byes; ++i, ++addr) {
+      if (addr == last)
+        BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
       char c = *addr;
       cur_bitmap_ <<= 7;
       cur_bitmap_ |= c & '\x7F';
@@ -58,6 +62,7 @@ private:
   size_t cur_bitmap_;
   size_t mask_;
   const char *continue_;
+  const char *last_;
   friend std::ostream &operator<<(std::ostream &,
                                   const mfast::decoder_presence_map &);
 };
diff --git a/src/mfast/coder/decoder/fast_istream.h b/src/mfast/coder/decoder/fast_istream.h
index 7a4b844..2beae79 100644
--- a/src/mfast/coder/decoder/fast_istream.h
+++ b/src/mfast/coder/decoder/fast_istream.h
@@ -99,6 +99,7 @@ public:
               const unicode_field_instruction * /* instruction */,
               Nullable nullable) {
     if (this->decode(len, nullable)) {
+      buf_->ensure_avail(len);
       bv = buf_->gptr();
       buf_->gbump(len);
       return true;
@@ -119,6 +120,7 @@ public:
               const byte_vector_field_instruction * /* instruction */,
               Nullable nullable) {
     if (this->decode(len, nullable)) {
+      buf_->ensure_avail(len);
       bv = reinterpret_cast<const unsigned char *>(buf_->gptr());
       buf_->gbump(len);
       return true;
diff --git a/src/mfast/coder/decoder/fast_istreambuf.h b/src/mfast/coder/decoder/fast_istreambuf.h
index 39c6425..df0568e 100644
--- a/src/mfast/coder/decoder/fast_istreambuf.h
+++ b/src/mfast/coder/decoder/fast_istreambuf.h
@@ -39,13 +39,21 @@ protected:
   friend struct coder::fast_decoder_base;
 
   void gbump(std::ptrdiff_t n) { gptr_ += n; }
+  // make sure there are at least n bytes available
+  void ensure_avail(std::size_t n) const {
+    if (in_avail() < n)
+      BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
+  }
   unsigned char sbumpc() {
     if (in_avail() < 1)
       BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
     return *(gptr_++);
   }
 
-  char sgetc() const { return *gptr_; }
+  char sgetc() const {
+    ensure_avail(1);
+    return *gptr_;
+  }
   const char *egptr() { return egptr_; }
   const char *gptr_, *egptr_;
 };
-- 
2.43.0


From 7c95f2fd875d3c569d1e722910e23aab5de2fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:04 +0000
Subject: [PATCH 05/83] fix: decode increment of exponents and of the largest
 value

---
 .../coder/decoder/decoder_field_operator.cpp  | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/mfast/coder/decoder/decoder_field_operator.cpp b/src/mfast/coder/decoder/decoder_field_operator.cpp
index 68baf40..a7b1c62 100644
--- a/src/mfast/coder/decoder/decoder_field_operator.cpp
+++ b/src/mfast/coder/decoder/decoder_field_operator.cpp
@@ -301,8 +301,15 @@ public:
 
 struct increment_operation {
   template <typename T> void operator()(T &, value_storage &previous) const {
-    previous.set<typename T::value_type>(
-        previous.get<typename T::value_type>() + 1);
+    // incrementing the largest value yields the smallest one
+    typedef typename T::value_type value_type;
+    typedef typename std::make_unsigned<value_type>::type unsigned_type;
+    previous.set<value_type>(static_cast<value_type>(
+        static_cast<unsigned_type>(previous.get<value_type>()) + 1));
+  }
+
+  void operator()(const exponent_mref &, value_storage &previous) const {
+    previous.of_decimal.exponent_ += 1;
   }
 };
 
@@ -332,6 +339,18 @@ public:
                       decoder_presence_map &pmap) const override {
     decode_impl(mref, stream, pmap);
   }
+
+  virtual void decode(const decimal_mref &mref, fast_istream &stream,
+                      decoder_presence_map &pmap) const override {
+    // only the exponent of a decimal can have the increment operator
+    decode_impl(mref.set_exponent(), stream, pmap);
+    if (mref.present()) {
+      int64_mref mantissa_mref = mref.set_mantissa();
+      const decoder_field_operator *mantissa_operator =
+          decoder_operators[mantissa_mref.instruction()->field_operator()];
+      mantissa_operator->decode(mantissa_mref, stream, pmap);
+    }
+  }
 };
 
 class default_operator : public decoder_field_operator,
-- 
2.43.0


From 4cc86b48522f4f293dbe66c31ce4458b19af236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:04 +0000
Subject: [PATCH 06/83] fix: decode nested dynamic messages into constructed
 storage and keep the dictionary valid

---
 src/mfast/coder/common/template_repo.h   | 24 ++++++++++++++++++++++--
 src/mfast/coder/decoder/fast_decoder.cpp | 11 ++++++++++-
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/mfast/coder/common/template_repo.h b/src/mfast/coder/common/template_repo.h
index cc8c510..f327a51 100644
--- a/src/mfast/coder/common/template_repo.h
+++ b/src/mfast/coder/common/template_repo.h
@@ -7,6 +7,7 @@
 
 #include "dictionary_builder.h"
 #include <map>
+#include <string>
 
 namespace mfast {
 class template_repo_base {
@@ -14,6 +15,8 @@ public:
   template_repo_base(mfast::allocator *dictionary_alloc)
       : dictionary_alloc_(dictionary_alloc) {}
   virtual ~template_repo_base() {
+    if (dictionary_alloc_ == nullptr)
+      return;
     for (auto &elem : vector_entries_) {
       if (elem->of_array.capacity_in_bytes_)
       {
@@ -31,6 +34,23 @@ public:
     }
   }
 
+  // Decoders let the previous values of strings refer to the content of the
+  // messages being decoded. This must be invoked before any part of a message is
+  // destroyed.
+  void detach_previous_values() {
+    for (auto &elem : vector_entries_) {
+      if (elem->of_array.capacity_in_bytes_ == 0 && elem->array_length() > 0) {
+        std::string &copy = detached_values_[elem];
+        const char *content =
+            static_cast<const char *>(elem->of_array.content_);
+        if (content != copy.data()) {
+          copy.assign(content, elem->array_length());
+          elem->of_array.content_ = &copy[0];
+        }
+      }
+    }
+  }
+
   virtual template_instruction *get_template(uint32_t id) = 0;
 
 private:
@@ -41,8 +61,7 @@ private:
 public:
 #endif
   void add_vector_entry(value_storage *entry) {
-    if (dictionary_alloc_)
-      vector_entries_.push_back(entry);
+    vector_entries_.push_back(entry);
   }
 
 protected:
@@ -51,6 +70,7 @@ protected:
   typedef std::vector<value_storage *> value_entries_t;
   value_entries_t reset_entries_;
   value_entries_t vector_entries_; // for string and byteVector
+  std::map<value_storage *, std::string> detached_values_;
   arena_allocator instruction_alloc_;
   mfast::allocator *dictionary_alloc_;
 };
diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index 68c2c95..8f2c4e9 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -94,6 +94,7 @@ struct fast_decoder_impl {
 
 inline fast_decoder_impl::fast_decoder_impl(mfast::allocator *alloc)
     : repo_(info_entry_converter(alloc)), message_alloc_(alloc), strm_(nullptr),
+      active_message_(nullptr), force_reset_(false), current_(nullptr),
       warning_log_(nullptr) {}
 
 fast_decoder_impl::~fast_decoder_impl() {}
@@ -237,7 +238,15 @@ inline void fast_decoder_impl::visit(const nested_message_mref &mref, int) {
       BOOST_THROW_EXCEPTION(fast_dynamic_error("D9")
                             << template_id_info(template_id));
     }
-    mref.set_target_instruction(active_message_->instruction(), false);
+  }
+
+  if (active_message_->instruction()->has_reset_attribute())
+    repo_.reset_dictionary();
+
+  if (mref.target_instruction() != active_message_->instruction()) {
+    // the strings in the old target may still be the previous values
+    repo_.detach_previous_values();
+    mref.set_target_instruction(active_message_->instruction());
   }
 
   for (auto &&field : mref.target()) {
-- 
2.43.0


From d52c6c3e24c7e321dfdce7fa744e9a05b2b10124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:04 +0000
Subject: [PATCH 07/83] fix: apply string deltas whose base is the target
 itself

---
 src/mfast/coder/common/codec_helper.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/mfast/coder/common/codec_helper.h b/src/mfast/coder/common/codec_helper.h
index baca4c2..e5cc548 100644
--- a/src/mfast/coder/common/codec_helper.h
+++ b/src/mfast/coder/common/codec_helper.h
@@ -7,6 +7,8 @@
 
 #include "../../string_ref.h"
 #include "../../exceptions.h"
+#include <cstring>
+#include <vector>
 
 namespace mfast {
 namespace detail {
@@ -124,9 +126,17 @@ public:
       base_start_index = delta_len;
     }
 
-    mref.resize(base_len + delta_len);
-    if (base_str != mref.data() && (base_len > 0)) {
-      std::memmove(mref.data() + base_start_index, base_str, base_len);
+    if (base_value.of_array.content_ == mref.data() && base_len > 0) {
+      // the base value is kept in the field itself; it has to be saved because
+      // resizing can move or overwrite it.
+      const std::vector<typename STRING_MREF::value_type> base(
+          base_str, base_str + base_len);
+      mref.resize(base_len + delta_len);
+      std::memcpy(mref.data() + base_start_index, base.data(), base_len);
+    } else {
+      mref.resize(base_len + delta_len);
+      if (base_len > 0)
+        std::memcpy(mref.data() + base_start_index, base_str, base_len);
     }
     if (delta_len > 0) {
       assert(delta_str != nullptr);
-- 
2.43.0


From 0868cb45f0d3d92a9707d66cde77db0be76e8635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:04 +0000
Subject: [PATCH 08/83] fix: element sizes, presence and reservation in vector
 references

---
 src/mfast/vector_ref.h | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index c453bc4..278990d 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -61,7 +61,8 @@ public:
   size_t size() const { return storage_->array_length(); }
   size_t length() const { return size(); }
   bool is_initial_value() const {
-    return *this == vector_cref_base<T, InstructionType>(
+    return this->absent() == this->instruction()->initial_value().is_empty() &&
+           *this == vector_cref_base<T, InstructionType>(
                         &this->instruction()->initial_value(), instruction());
   }
 
@@ -111,7 +112,7 @@ bool operator==(const vector_cref_base<T, InstructionType> &lhs,
     return false;
   if (lhs.data() == rhs.data())
     return true;
-  return std::memcmp(lhs.data(), rhs.data(), lhs.size()) == 0;
+  return std::memcmp(lhs.data(), rhs.data(), lhs.size() * sizeof(T)) == 0;
 }
 
 template <typename T, typename InstructionType>
@@ -213,21 +214,17 @@ public:
     return data()[index];
   }
 
-  void resize(size_t n, char c = 0) const {
+  void resize(size_t n, value_type c = 0) const {
     assert(n < static_cast<size_t>((std::numeric_limits<int32_t>::max)()));
-    size_t len = n + 1;
-    if (len > this->capacity()) {
-      reserve(n);
-      std::make_signed<std::size_t>::type bytes_to_set = n - this->size();
-      if (bytes_to_set > 0)
-        std::memset(end(), c, static_cast<size_t>(bytes_to_set));
-    }
+    reserve(n);
+    if (n > this->size())
+      std::fill(end(), begin() + n, c);
     this->storage()->array_length(static_cast<uint32_t>(n));
   }
 
   void reserve(size_t n) const;
 
-  void push_back(char c) const { insert(end(), c); }
+  void push_back(value_type c) const { insert(end(), c); }
   void pop_back() const {
     if (this->size())
       this->storage()->of_array.len_ -= 1;
@@ -294,7 +291,8 @@ protected:
 
   friend class mfast::detail::codec_helper;
   void copy_from(const value_storage &v) const {
-    const char *ptr = static_cast<const char *>(v.of_array.content_);
+    const value_type *ptr =
+        static_cast<const value_type *>(v.of_array.content_);
     this->assign(ptr, ptr + v.array_length());
   }
 
@@ -433,7 +431,8 @@ void vector_mref_base<T>::reserve(
 
   if (capacity() > 0) {
     this->storage()->of_array.capacity_in_bytes_ = this->alloc_->reallocate(
-        this->storage()->of_array.content_, capacity(), reserve_size);
+        this->storage()->of_array.content_,
+        this->storage()->of_array.capacity_in_bytes_, reserve_size);
   } else {
     void *old_addr = this->storage()->of_array.content_;
     this->storage()->of_array.content_ = nullptr;
@@ -469,8 +468,7 @@ vector_mref_base<T>::shift(typename vector_mref_base<T>::iterator position,
   iterator src = begin() + offset;
 
   if (offset < this->size()) {
-    std::memmove(src + (n * sizeof(value_type)), src,
-                 (this->size() + 1 - offset) * sizeof(value_type));
+    std::memmove(src + n, src, (this->size() - offset) * sizeof(value_type));
   }
 
   this->storage()->of_array.len_ += static_cast<uint32_t>(n);
@@ -490,7 +488,7 @@ void vector_mref_base<T>::replace(size_t pos, size_t count,
       this->shift(data() + pos, diff);
     } else {
       std::memmove(data() + pos + count2, data() + pos + count,
-                   -diff * sizeof(value_type));
+                   (this->size() - pos - count) * sizeof(value_type));
       this->resize(this->size() + diff);
     }
   }
-- 
2.43.0


From 143246e5185e1bfae31d141cf7aa3ce432109b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:04 +0000
Subject: [PATCH 09/83] fix: compare absence when testing for the initial value
 of a decimal; leave the other half of a decimal alone

---
 src/mfast/decimal_ref.h | 3 ++-
 src/mfast/int_ref.h     | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mfast/decimal_ref.h b/src/mfast/decimal_ref.h
index 1397d4b..a0cbeab 100644
--- a/src/mfast/decimal_ref.h
+++ b/src/mfast/decimal_ref.h
@@ -178,7 +178,8 @@ inline bool operator!=(const decimal_cref &lhs, const decimal_cref &rhs) {
   return !(lhs == rhs);
 }
 inline bool decimal_cref::is_initial_value() const {
-  return *this == decimal_cref(&this->instruction()->initial_value(),
+  return this->absent() == this->instruction()->initial_value().is_empty() &&
+         *this == decimal_cref(&this->instruction()->initial_value(),
                                this->instruction());
 }
 
diff --git a/src/mfast/int_ref.h b/src/mfast/int_ref.h
index b3ed8e5..91b8e28 100644
--- a/src/mfast/int_ref.h
+++ b/src/mfast/int_ref.h
@@ -98,7 +98,7 @@ public:
   }
 
   void to_initial_value() const {
-    *this->storage() = this->instruction()->initial_value();
+    copy_from(this->instruction()->initial_value());
   }
   T value() const { return this->storage()->template get<T>(); }
 
@@ -117,7 +117,12 @@ protected:
 
   friend class mfast::detail::codec_helper;
 
-  void copy_from(value_storage v) const { *this->storage() = v; }
+  // The storage may be shared with the exponent of a decimal, which must be
+  // left untouched.
+  void copy_from(const value_storage &v) const {
+    this->storage()->present(!v.is_empty());
+    this->storage()->of_uint64.content_ = v.of_uint64.content_;
+  }
 };
 
 typedef int_mref<int32_t> int32_mref;
-- 
2.43.0


From 32d29f32d506b4e9a8b0e39281a3f844455a2c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:04 +0000
Subject: [PATCH 10/83] fix: account for both operators of a decimal in the
 presence map size

---
 src/mfast/instructions/decimal_instruction.h | 10 ++++++++++
 src/mfast/xml_parser/field_builder.cpp       |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mfast/instructions/decimal_instruction.h b/src/mfast/instructions/decimal_instruction.h
index fbeeb10..932d770 100644
--- a/src/mfast/instructions/decimal_instruction.h
+++ b/src/mfast/instructions/decimal_instruction.h
@@ -78,6 +78,16 @@ public:
     return initial_value_;
   }
 
+  /// number of bits in the presence map; with individual operators both the
+  /// exponent and the mantissa can occupy a bit.
+  virtual std::size_t pmap_size() const override {
+    if (mantissa_instruction_ == nullptr)
+      return field_instruction::pmap_size();
+    return (operator_id_ > operator_delta ||
+            (operator_id_ == operator_constant && optional())) +
+           mantissa_instruction_->pmap_size();
+  }
+
   void mantissa_instruction(mantissa_field_instruction *v) {
     mantissa_instruction_ = v;
     this->initial_value_.of_decimal.mantissa_ =
diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index e173558..644f3f4 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -192,7 +192,7 @@ void field_builder::visit(const decimal_field_instruction *inst, void *) {
 
     if (base_mantissa_instruction == nullptr) {
       static const mantissa_field_instruction mantissa_prototype(
-          operator_none, nullptr, int_value_storage<int64_t>(0));
+          operator_none, nullptr, int_value_storage<int64_t>());
       base_mantissa_instruction = &mantissa_prototype;
     }
 
-- 
2.43.0


From fb03af899451e21eeb76ca461aa556d17ec02827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:04 +0000
Subject: [PATCH 11/83] fix: presence maps of messages that do not start the
 output buffer

---
 .../coder/encoder/encoder_presence_map.h      | 26 +++++++++++++++----
 src/mfast/coder/encoder/fast_ostream.h        | 15 ++++++-----
 src/mfast/coder/encoder/fast_ostreambuf.cpp   | 10 +++----
 src/mfast/coder/encoder/fast_ostreambuf.h     |  7 ++---
 4 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_presence_map.h b/src/mfast/coder/encoder/encoder_presence_map.h
index ab8be89..ba9a332 100644
--- a/src/mfast/coder/encoder/encoder_presence_map.h
+++ b/src/mfast/coder/encoder/encoder_presence_map.h
@@ -32,19 +32,21 @@ private:
   std::size_t nbytes_;
   std::size_t value_, mask_;
   fast_ostream *stream_;
-  std::size_t offset_;
+  std::size_t begin_;  // where the presence map starts in the stream
+  std::size_t offset_; // where the bits in value_ are to be written
   std::size_t maxbytes_;
 };
 
 inline encoder_presence_map::encoder_presence_map()
-    : stream_(nullptr), offset_(0), maxbytes_(0) {
+    : stream_(nullptr), begin_(0), offset_(0), maxbytes_(0) {
   reset();
 }
 
 inline void encoder_presence_map::init(fast_ostream *stream,
                                        std::size_t maxbits) {
   stream_ = stream;
-  offset_ = stream->offset();
+  begin_ = stream->offset();
+  offset_ = begin_;
   maxbytes_ = (maxbits + 6) / 7; // i.e. ceiling(maxbits/7)
   stream_->buf_->skip(maxbytes_);
 }
@@ -56,6 +58,19 @@ inline void encoder_presence_map::reset() {
 }
 
 inline void encoder_presence_map::commit() {
+  // Fewer bits than reserved may have been set (e.g. when a decimal with
+  // individual operators is absent); the remaining bytes still belong to the
+  // presence map.
+  while (maxbytes_ > sizeof(std::size_t)) {
+    stream_->write_bytes_at(&value_, sizeof(std::size_t), offset_, begin_,
+                            false);
+    offset_ += sizeof(std::size_t);
+    maxbytes_ -= sizeof(std::size_t);
+    reset();
+  }
+  if (nbytes_ + 1 < maxbytes_)
+    nbytes_ = maxbytes_ - 1;
+
 #ifdef BOOST_BIG_ENDIAN
   const std::size_t stop_bit_mask = (init_mask >> (nbytes_ * 8));
 #else
@@ -63,7 +78,7 @@ inline void encoder_presence_map::commit() {
 #endif
 
   value_ |= stop_bit_mask;
-  stream_->write_bytes_at(&value_, ++nbytes_, offset_, true);
+  stream_->write_bytes_at(&value_, ++nbytes_, offset_, begin_, true);
 }
 
 inline BOOST_CONSTEXPR std::size_t get_next_bit_mask(std::size_t i) {
@@ -86,7 +101,8 @@ inline void encoder_presence_map::set_next_bit(bool v) {
 
   if (mask_ == 0) {
     // we need to commit the current pmap before preceed
-    stream_->write_bytes_at(&value_, sizeof(std::size_t), offset_, false);
+    stream_->write_bytes_at(&value_, sizeof(std::size_t), offset_, begin_,
+                            false);
     offset_ += sizeof(std::size_t);
     maxbytes_ -= sizeof(std::size_t);
     reset();
diff --git a/src/mfast/coder/encoder/fast_ostream.h b/src/mfast/coder/encoder/fast_ostream.h
index cd9aaba..e9036ae 100644
--- a/src/mfast/coder/encoder/fast_ostream.h
+++ b/src/mfast/coder/encoder/fast_ostream.h
@@ -46,7 +46,8 @@ private:
   friend class encoder_presence_map;
 
   void write_bytes_at(std::size_t *bytes, std::size_t nbytes,
-                      std::size_t offset, bool pmap_end);
+                      std::size_t offset, std::size_t pmap_begin,
+                      bool pmap_end);
 
   std::size_t offset() const { return rdbuf()->length(); }
   fast_ostreambuf *buf_;
@@ -171,7 +172,7 @@ inline void
 fast_ostream::encode(const char *ascii, uint32_t len,
                      const ascii_field_instruction * /* instruction */,
                      Nullable nullable) {
-  assert(ascii || nullable);
+  assert(ascii || nullable || len == 0);
 
   if (nullable && ascii == nullptr) {
     rdbuf()->sputc('\x80');
@@ -208,7 +209,7 @@ fast_ostream::encode(const char *unicode, uint32_t len,
                      const unicode_field_instruction * /* instruction */,
                      Nullable nullable) {
   // non-nullable string cannot have a null value
-  assert(unicode || nullable);
+  assert(unicode || nullable || len == 0);
 
   encode(len, unicode == nullptr, nullable);
   if (unicode && len > 0) {
@@ -222,7 +223,7 @@ fast_ostream::encode(const unsigned char *bv, uint32_t len,
                      const byte_vector_field_instruction * /* instruction */,
                      Nullable nullable) {
   // non-nullable byteVector cannot have a null value
-  assert(bv || nullable);
+  assert(bv || nullable || len == 0);
 
   encode(len, bv == nullptr, nullable);
   if (bv && len > 0) {
@@ -239,9 +240,11 @@ inline void fast_ostream::save_previous_value(const T &cref) const {
 }
 
 inline void fast_ostream::write_bytes_at(std::size_t *bytes, std::size_t nbytes,
-                                         std::size_t offset, bool pmap_end) {
+                                         std::size_t offset,
+                                         std::size_t pmap_begin,
+                                         bool pmap_end) {
   rdbuf()->write_bytes_at(reinterpret_cast<const char *>(bytes), nbytes, offset,
-                          pmap_end && !allow_overlong_pmap_);
+                          pmap_begin, pmap_end && !allow_overlong_pmap_);
 }
 
 inline void fast_ostream::encode_null() { rdbuf()->sputc('\x80'); }
diff --git a/src/mfast/coder/encoder/fast_ostreambuf.cpp b/src/mfast/coder/encoder/fast_ostreambuf.cpp
index 5492f7f..060e48a 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.cpp
+++ b/src/mfast/coder/encoder/fast_ostreambuf.cpp
@@ -15,20 +15,18 @@ void fast_ostreambuf::overflow(std::size_t) { throw buffer_overflow_error(); }
 std::size_t fast_ostreambuf::length() const { return pptr_ - pbase_; }
 
 void fast_ostreambuf::write_bytes_at(const char *data, std::size_t n,
-                                     std::size_t offset, bool shrink) {
+                                     std::size_t offset, std::size_t pmap_begin,
+                                     bool shrink) {
   assert((pbase_ + offset + n) <= pptr_);
   std::copy(data, data + n, pbase_ + offset);
 
   if (shrink) {
     std::size_t index = offset + n - 1;
-    if (pbase_[index] == '\x80') {
+    if (pbase_[index] == '\x80' && index > pmap_begin) {
       --index;
-      for (; index > 0 && pbase_[index] == 0; --index)
+      for (; index > pmap_begin && pbase_[index] == 0; --index)
         ;
 
-      if (pbase_[index] & '\x80') {
-        ++index;
-      }
       pbase_[index] |= '\x80';
       ++index;
       const char *src = pbase_ + offset + n;
diff --git a/src/mfast/coder/encoder/fast_ostreambuf.h b/src/mfast/coder/encoder/fast_ostreambuf.h
index 7d7b98f..bba04a3 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.h
+++ b/src/mfast/coder/encoder/fast_ostreambuf.h
@@ -28,7 +28,8 @@ public:
 
   virtual std::size_t length() const;
   virtual void write_bytes_at(const char *data, std::size_t n,
-                              std::size_t offset, bool shrink);
+                              std::size_t offset, std::size_t pmap_begin,
+                              bool shrink);
 
   const char *pbase() const { return pbase_; }
 
@@ -54,7 +55,7 @@ inline void fast_ostreambuf::sputc(char c) {
 }
 
 inline void fast_ostreambuf::sputn(const char *data, std::size_t n) {
-  while (pptr_ + n >= epptr_)
+  while (n > static_cast<std::size_t>(epptr_ - pptr_))
     overflow(n);
 
   std::copy(data, data + n, pptr_);
@@ -62,7 +63,7 @@ inline void fast_ostreambuf::sputn(const char *data, std::size_t n) {
 }
 
 inline void fast_ostreambuf::skip(std::size_t n) {
-  while (pptr_ + n >= epptr_)
+  while (n > static_cast<std::size_t>(epptr_ - pptr_))
     overflow(n);
   pptr_ += n;
 }
-- 
2.43.0


From 13750c02c02d1eec7586beee542180f00ac01162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:04 +0000
Subject: [PATCH 12/83] fix: encode absent values as null and empty byte
 vectors as empty

---
 .../coder/encoder/fast_ostream_inserter.h     | 23 ++++++++++++++-----
 .../coder/encoder_v2/fast_ostream_inserter.h  | 23 ++++++++++++++-----
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_ostream_inserter.h b/src/mfast/coder/encoder/fast_ostream_inserter.h
index 77d2ce8..06e48cd 100644
--- a/src/mfast/coder/encoder/fast_ostream_inserter.h
+++ b/src/mfast/coder/encoder/fast_ostream_inserter.h
@@ -24,22 +24,33 @@ inline fast_ostream &operator<<(fast_ostream &strm, const exponent_cref &cref) {
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const ascii_string_cref &cref) {
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), cref.instruction()->is_nullable());
+  if (cref.absent())
+    strm.encode_null();
+  else
+    strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
+                cref.instruction(), cref.instruction()->is_nullable());
   return strm;
 }
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const unicode_string_cref &cref) {
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), cref.instruction()->is_nullable());
+  if (cref.absent())
+    strm.encode_null();
+  else
+    strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
+                cref.instruction(), cref.instruction()->is_nullable());
   return strm;
 }
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const byte_vector_cref &cref) {
-  strm.encode(cref.begin(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), cref.instruction()->is_nullable());
+  static const unsigned char empty_value[1] = {0};
+  if (cref.absent())
+    strm.encode_null();
+  else
+    strm.encode(cref.size() > 0 ? cref.begin() : empty_value,
+                static_cast<uint32_t>(cref.size()), cref.instruction(),
+                cref.instruction()->is_nullable());
   return strm;
 }
 
diff --git a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
index e99548a..bfe1fd8 100644
--- a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
+++ b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
@@ -19,8 +19,11 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<ascii_string_cref, Operator, Properties> &ext_ref) {
   ascii_string_cref cref = ext_ref.get();
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), ext_ref.nullable());
+  if (cref.absent())
+    strm.encode_null();
+  else
+    strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
+                cref.instruction(), ext_ref.nullable());
   return strm;
 }
 
@@ -29,8 +32,11 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<unicode_string_cref, Operator, Properties> &ext_ref) {
   unicode_string_cref cref = ext_ref.get();
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), ext_ref.nullable());
+  if (cref.absent())
+    strm.encode_null();
+  else
+    strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
+                cref.instruction(), ext_ref.nullable());
   return strm;
 }
 
@@ -39,8 +45,13 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<byte_vector_cref, Operator, Properties> &ext_ref) {
   byte_vector_cref cref = ext_ref.get();
-  strm.encode(cref.begin(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), ext_ref.nullable());
+  static const unsigned char empty_value[1] = {0};
+  if (cref.absent())
+    strm.encode_null();
+  else
+    strm.encode(cref.size() > 0 ? cref.begin() : empty_value,
+                static_cast<uint32_t>(cref.size()), cref.instruction(),
+                ext_ref.nullable());
   return strm;
 }
 
-- 
2.43.0


From 3bb3c6327bae2b9e2f46870eb7d0185b9368c095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:04 +0000
Subject: [PATCH 13/83] fix: encode absent values, wrapping integers and
 overlapping strings as the decoder reads them

---
 .../coder/encoder/encoder_field_operator.cpp  | 85 ++++++++++++-------
 src/mfast/coder/encoder/fast_encoder.cpp      | 27 +++---
 2 files changed, 67 insertions(+), 45 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index 2dfbbab..75b1ad9 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -253,24 +253,23 @@ public:
 struct is_same {
   template <typename T>
   bool operator()(const int_cref<T> &v, const value_storage &prev) const {
-    return v.absent() == prev.is_empty() && v.value() == prev.get<T>();
+    return v.present() && v.value() == prev.get<T>();
   }
 
   bool operator()(const exponent_cref &v, const value_storage &prev) const {
-    return v.absent() == prev.is_empty() &&
-           v.value() == prev.of_decimal.exponent_;
+    return v.present() && v.value() == prev.of_decimal.exponent_;
   }
 
   bool operator()(const decimal_cref &v, const value_storage &prev) const {
-    return v.absent() == prev.is_empty() &&
-           v.mantissa() == prev.of_decimal.mantissa_ &&
+    return v.present() && v.mantissa() == prev.of_decimal.mantissa_ &&
            v.exponent() == prev.of_decimal.exponent_;
   }
 
   template <typename T>
   bool operator()(const vector_cref<T> &v, const value_storage &prev) const {
-    return v.size() == prev.of_array.len_ - 1 &&
-           memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) == 0;
+    return v.present() && v.size() == prev.array_length() &&
+           (v.size() == 0 ||
+            memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) == 0);
   }
 };
 
@@ -325,7 +324,17 @@ public:
 struct is_increment {
   template <typename T>
   bool operator()(const T &v, const value_storage &previous) const {
-    return v.value() == previous.get<const typename T::value_type>() + 1;
+    typedef typename T::value_type value_type;
+    typedef typename std::make_unsigned<value_type>::type unsigned_type;
+    // incrementing the largest value yields the smallest one
+    return v.present() &&
+           static_cast<unsigned_type>(v.value()) ==
+               static_cast<unsigned_type>(
+                   static_cast<unsigned_type>(previous.get<value_type>()) + 1);
+  }
+
+  bool operator()(const exponent_cref &v, const value_storage &previous) const {
+    return v.present() && v.value() == previous.of_decimal.exponent_ + 1;
   }
 };
 
@@ -354,6 +363,18 @@ public:
                       encoder_presence_map &pmap) const override {
     encode_impl(cref, stream, pmap);
   }
+
+  virtual void encode(const decimal_cref &cref, fast_ostream &stream,
+                      encoder_presence_map &pmap) const override {
+    // only the exponent of a decimal can have the increment operator
+    encode_impl(cref.get_exponent(), stream, pmap);
+    if (cref.present()) {
+      int64_cref mantissa_cref = cref.get_mantissa();
+      const encoder_field_operator *mantissa_operator =
+          encoder_operators[mantissa_cref.instruction()->field_operator()];
+      mantissa_operator->encode(mantissa_cref, stream, pmap);
+    }
+  }
 };
 
 class default_operator : public encoder_field_operator,
@@ -448,7 +469,9 @@ class delta_operator : public encoder_field_operator,
       value_storage bv = delta_base_value_of(cref);
       T base(&bv, nullptr);
 
-      int64_t delta = static_cast<int64_t>(cref.value() - base.value());
+      int64_t delta =
+          static_cast<int64_t>(static_cast<uint64_t>(cref.value()) -
+                               static_cast<uint64_t>(base.value()));
 
       stream.encode(delta, false, cref.instruction()->is_nullable());
       stream.save_previous_value(cref);
@@ -472,11 +495,13 @@ class delta_operator : public encoder_field_operator,
         difference_type;
 
     std::pair<const_iterator, const_iterator> common_prefix_positions =
-        std::mismatch(cref.begin(), cref.end(), prev_cref.begin());
+        std::mismatch(cref.begin(), cref.end(), prev_cref.begin(),
+                      prev_cref.end());
 
     std::pair<const_reverse_iterator, const_reverse_iterator>
         common_suffix_positions =
-            std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin());
+            std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin(),
+                          prev_cref.rend());
 
     int32_t substraction_len;
     const_iterator delta_iterator;
@@ -546,7 +571,8 @@ public:
         delta_storage.of_decimal.exponent_ =
             cref.exponent() - bv.of_decimal.exponent_;
         delta_storage.of_decimal.mantissa_ =
-            cref.mantissa() - bv.of_decimal.mantissa_;
+            static_cast<int64_t>(static_cast<uint64_t>(cref.mantissa()) -
+                                 static_cast<uint64_t>(bv.of_decimal.mantissa_));
         delta_storage.of_decimal.present_ = cref.present();
 
         decimal_cref delta(&delta_storage, cref.instruction());
@@ -592,25 +618,21 @@ private:
 
     value_storage &prev = previous_value_of(cref);
 
-    // if (cref.absent()) {
-    //   if (!prev.is_defined() || prev.is_empty()) {
-    //     pmap.set_next_bit(false);
-    //   }
-    //   else {
-    //     pmap.set_next_bit(true);
-    //     stream.encode_null();
-    //   }
-    // }
-    // else
-    if (is_same()(cref, tail_base_value_of(cref))) {
+    // What the value is when the tail does not appear in the stream depends on
+    // the state of the previous value
+    bool can_be_omitted;
+    if (!prev.is_defined())
+      can_be_omitted = cref.is_initial_value();
+    else if (prev.is_empty())
+      can_be_omitted = cref.absent();
+    else
+      can_be_omitted = is_same()(cref, prev);
+
+    if (can_be_omitted) {
       pmap.set_next_bit(false);
     } else if (cref.absent()) {
-      if (prev.is_defined() && prev.is_empty()) {
-        pmap.set_next_bit(false);
-      } else {
-        pmap.set_next_bit(true);
-        stream.encode_null();
-      }
+      pmap.set_next_bit(true);
+      stream.encode_null();
     } else {
       pmap.set_next_bit(true);
 
@@ -633,6 +655,11 @@ private:
         tail_itr = cref.begin();
         tail_len = static_cast<uint32_t>(cref.size());
       }
+      if (tail_itr == nullptr) {
+        // an empty string; it must not be mistaken for a null value
+        static const typename T::value_type empty_tail[1] = {0};
+        tail_itr = empty_tail;
+      }
       stream.encode(tail_itr, tail_len, cref.instruction(),
                     cref.instruction()->is_nullable());
     }
diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 71403e2..41e4973 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -69,7 +69,8 @@ struct fast_encoder_impl : simple_template_repo_t {
 };
 
 inline fast_encoder_impl::fast_encoder_impl(allocator *alloc)
-    : simple_template_repo_t(alloc), strm_(alloc), active_message_id_(-1) {}
+    : simple_template_repo_t(alloc), strm_(alloc), active_message_id_(-1),
+      current_(nullptr) {}
 
 fast_encoder_impl::~fast_encoder_impl() {}
 
@@ -126,16 +127,6 @@ inline void fast_encoder_impl::visit(group_cref cref, int) {
 
 inline void fast_encoder_impl::visit(sequence_cref cref, int) {
 
-  if (cref.instruction()->optional() && !cref.present()) {
-    if (cref.instruction()->length_instruction()->pmap_size() > 0)
-      this->current_->set_next_bit(false);
-    if (cref.instruction()->length_instruction()->field_operator() != operator_constant &&
-        cref.instruction()->length_instruction()->field_operator() != operator_default &&
-        cref.instruction()->length_instruction()->field_operator() != operator_copy)
-      strm_.encode_null();
-    return;
-  }
-
   value_storage storage;
 
   uint32_mref length_mref(nullptr, &storage,
@@ -183,7 +174,7 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
 
   uint32_t template_id = cref.id();
 
-  template_instruction *instruction = *this->find(template_id);
+  template_instruction *instruction = this->get_template(template_id);
 
   if (instruction != nullptr) {
     constexpr std::size_t template_id_bit = 1;
@@ -194,8 +185,12 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
                           << template_id_info(template_id));
   }
 
-  if (force_reset || instruction->has_reset_attribute())
+  if (force_reset || instruction->has_reset_attribute()) {
     this->reset_dictionary();
+    // the template identifier is also subject to the reset
+    template_instruction **entry = this->unique_entry();
+    active_message_id_ = (entry != nullptr) ? (*entry)->id() : -1;
+  }
 
   bool need_encode_template_id = (active_message_id_ != template_id);
   current_pmap().set_next_bit(need_encode_template_id);
@@ -209,10 +204,10 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
 
   for (auto &&field : message)
   {
-    if (field.present() || field.instruction()->field_operator() == operator_none)
-      apply_accessor(*this, field);
-    else if (!field.present() && field.instruction()->pmap_size())
+    if (field.absent() && field.instruction()->field_operator() == operator_default)
       current_pmap().set_next_bit(false);
+    else
+      apply_accessor(*this, field);
   }
 
   pmap.commit();
-- 
2.43.0


From f2d6b083c3ff0e5b063e7f407d3b2aa97a79290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:04 +0000
Subject: [PATCH 14/83] fix: resolve dictionary, namespace and type reference
 in the enclosing scope

---
 src/mfast/coder/common/dictionary_builder.cpp | 39 +++++++++++++------
 src/mfast/coder/common/dictionary_builder.h   |  3 ++
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index 862560c..3290e26 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -33,10 +33,10 @@ public:
                           field_type_enum_t second_type)
       : fast_dynamic_error("D4") {
     const char *field_type_name[] = {
-        "int32",       "uInt32",      "int64",        "uInt64",
-        "decimal",     "exponent",    "ascii string", "unicode string",
-        "byteVector",  "int32Vector", "uInt32Vector", "int64Vector",
-        "uInt64Vector"};
+        "int32",        "uInt32",         "int64",       "uInt64",
+        "decimal",      "exponent",       "templateRef", "ascii string",
+        "unicode string", "byteVector",   "int32Vector", "uInt32Vector",
+        "int64Vector",  "uInt64Vector"};
     *this << key_info(keyname) << first_type_info(field_type_name[first_type])
           << second_type_info(field_type_name[second_type]);
   }
@@ -53,13 +53,8 @@ std::string qualified_name(const char *ns, const char *name) {
 dictionary_builder::dictionary_builder(template_repo_base &repo_base)
     : repo_base_(repo_base), alloc_(repo_base.instruction_alloc_) {}
 
-void dictionary_builder::build_group(const field_instruction *fi,
-                                     const group_field_instruction *src,
-                                     group_field_instruction *dest) {
-  const char *inherited_ns = current_ns_;
-  const char *inherited_dictionary = current_dictionary_;
-  std::string inherited_type = current_type_;
-
+void dictionary_builder::enter_scope(const field_instruction *fi,
+                                     const group_field_instruction *src) {
   if (!is_empty_string(fi->ns())) {
     this->current_ns_ = fi->ns();
   }
@@ -70,11 +65,21 @@ void dictionary_builder::build_group(const field_instruction *fi,
 
   if (!is_empty_string(src->typeref_name())) {
     const char *type_ns = this->current_ns_;
-    if (!is_empty_string(src->typeref_name())) {
+    if (!is_empty_string(src->typeref_ns())) {
       type_ns = src->typeref_ns();
     }
     current_type_ = qualified_name(type_ns, src->typeref_name());
   }
+}
+
+void dictionary_builder::build_group(const field_instruction *fi,
+                                     const group_field_instruction *src,
+                                     group_field_instruction *dest) {
+  const char *inherited_ns = current_ns_;
+  const char *inherited_dictionary = current_dictionary_;
+  std::string inherited_type = current_type_;
+
+  enter_scope(fi, src);
 
   std::size_t instructions_count = src->subinstructions().size();
   const_instruction_ptr_t *subinstructions =
@@ -152,7 +157,17 @@ void dictionary_builder::visit(const sequence_field_instruction *src_inst,
   this->build_group(src_inst, src_inst, dest);
 
   if (src_inst->length_instruction()) {
+    // the length field belongs to the scope of the sequence
+    const char *inherited_ns = current_ns_;
+    const char *inherited_dictionary = current_dictionary_;
+    std::string inherited_type = current_type_;
+
+    enter_scope(src_inst, src_inst);
     visit(src_inst->length_instruction(), &dest->sequence_length_instruction_);
+
+    current_type_ = inherited_type;
+    current_ns_ = inherited_ns;
+    current_dictionary_ = inherited_dictionary;
   } else {
     dest->sequence_length_instruction_ = new (alloc_)
         uint32_field_instruction(operator_none, presence_mandatory, 0, "", "",
diff --git a/src/mfast/coder/common/dictionary_builder.h b/src/mfast/coder/common/dictionary_builder.h
index d9ef80a..03650fd 100644
--- a/src/mfast/coder/common/dictionary_builder.h
+++ b/src/mfast/coder/common/dictionary_builder.h
@@ -124,6 +124,9 @@ private:
 
   template_instruction *clone_instruction(const template_instruction *);
 
+  void enter_scope(const field_instruction *fi,
+                   const group_field_instruction *src);
+
   void build_group(const field_instruction *fi,
                    const group_field_instruction *src,
                    group_field_instruction *dest);
-- 
2.43.0


From c320f887276bad55c4e4ee81621e9eb3441abd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:02 +0000
Subject: [PATCH 15/83] fix: generated code for several enums, special
 characters and dynamic templateRefs

---
 src/fast_type_gen/cpp_gen.cpp | 42 +++++++++++++++++++++++++++--------
 src/fast_type_gen/inl_gen.cpp |  6 +++--
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index 1d5c89a..e4b88bf 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -5,6 +5,8 @@
 // See the file license.txt for licensing information.
 #include "cpp_gen.h"
 #include <boost/io/ios_state.hpp>
+#include <iomanip>
+#include <sstream>
 
 std::string cpp_gen::prefix_string() const {
   std::stringstream strm;
@@ -28,6 +30,20 @@ void cpp_gen::add_to_instruction_list(const std::string &name) {
   subinstructions_list_.back() += strm.str();
 }
 
+// The content of a string literal for an arbitrary sequence of characters.
+static std::string escaped(const char *str, std::size_t len) {
+  std::stringstream strm;
+  for (std::size_t i = 0; i < len; ++i) {
+    unsigned char c = static_cast<unsigned char>(str[i]);
+    if (c < 0x20 || c == 0x7f || c == '"' || c == '\\' || c == '?')
+      strm << '\\' << std::oct << std::setfill('0') << std::setw(3)
+           << static_cast<unsigned>(c);
+    else
+      strm << str[i];
+  }
+  return strm.str();
+}
+
 const char *get_operator_name(const mfast::field_instruction *inst) {
   const char *names[] = {
       "operator_none",    "operator_constant", "operator_delta",
@@ -169,7 +185,9 @@ void cpp_gen::gen_string(const mfast::ascii_field_instruction *inst,
          << "string_value_storage()";
   } else {
     out_ << "  "
-         << "string_value_storage(\"" << inst->initial_value().get<char *>()
+         << "string_value_storage(\""
+         << escaped(inst->initial_value().get<char *>(),
+                    inst->initial_value().array_length())
          << "\"," << inst->initial_value().array_length() << ")";
   }
 }
@@ -583,6 +601,8 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
   std::stringstream num_elements_name;
   std::stringstream instruction_type;
   std::string values_variable_name = "nullptr";
+  // the fields of a template are all defined in the same scope
+  std::string variable_prefix;
 
   if (inst->ref_instruction()) {
     qualified_name = cpp_type_of(inst);
@@ -596,7 +616,8 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
     instruction_type << qualified_name << "::instruction_type";
   } else {
     add_to_instruction_list(name);
-    instruction_variable_name = prefix_string() + name + "_instruction";
+    variable_prefix = prefix_string() + name + "_";
+    instruction_variable_name = variable_prefix + "instruction";
     instruction_type << cref_scope() << name << "_cref::instruction_type";
   }
 
@@ -606,10 +627,10 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
     values_variable_name = qualified_name + "::instruction()->element_values()";
     instruction_type.str(qualified_name + "::instruction_type");
   } else {
-    elements_variable_name << "elements";
+    elements_variable_name << variable_prefix << "elements";
     num_elements_name << inst->num_elements();
 
-    out_ << "static const char* elements[] = {\n";
+    out_ << "static const char* " << variable_prefix << "elements[] = {\n";
 
     for (uint64_t i = 0; i < inst->num_elements(); ++i) {
       if (i != 0) {
@@ -620,7 +641,7 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
     out_ << "};\n";
 
     if (inst->element_values()) {
-      out_ << "static const uint64_t values[] = {\n";
+      out_ << "static const uint64_t " << variable_prefix << "values[] = {\n";
 
       for (uint64_t i = 0; i < inst->num_elements(); ++i) {
         if (i != 0) {
@@ -629,7 +650,7 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
         out_ << "  " << inst->element_values()[i];
       }
       out_ << "};\n";
-      values_variable_name = "values";
+      values_variable_name = variable_prefix + "values";
     }
   }
 
@@ -672,6 +693,8 @@ void cpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
   std::stringstream elements_variable_name;
   std::stringstream num_elements_name;
   std::stringstream instruction_type;
+  // the fields of a template are all defined in the same scope
+  std::string variable_prefix;
   if (inst->ref_instruction())
     qualified_name = cpp_type_of(inst);
   if (pIndex == nullptr)
@@ -685,7 +708,8 @@ void cpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
   else
   {
     add_to_instruction_list(name);
-    instruction_variable_name = prefix_string() + name + "_instruction";
+    variable_prefix = prefix_string() + name + "_";
+    instruction_variable_name = variable_prefix + "instruction";
     instruction_type << cref_scope() << name << "_cref::instruction_type";
   }
   if (inst->ref_instruction())
@@ -696,9 +720,9 @@ void cpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
   }
   else
   {
-    elements_variable_name << "elements";
+    elements_variable_name << variable_prefix << "elements";
     num_elements_name << inst->num_elements();
-    out_ << "static const char* elements[] = {\n";
+    out_ << "static const char* " << variable_prefix << "elements[] = {\n";
     for (auto i = 0ul; i < inst->num_elements(); ++i)
     {
       if (i != 0)
diff --git a/src/fast_type_gen/inl_gen.cpp b/src/fast_type_gen/inl_gen.cpp
index 6278598..9f11812 100644
--- a/src/fast_type_gen/inl_gen.cpp
+++ b/src/fast_type_gen/inl_gen.cpp
@@ -972,8 +972,10 @@ void inl_gen::visit(const mfast::templateref_instruction *, void *pIndex) {
        << "get_nested_message" << index << "() const\n"
        << "{\n"
        << "  return mfast::nested_message_cref((*this)[" << index << "]);\n"
-       << "}\n\n" << cref_scope_.str() << "try_get_nested_message" << index
-       << "() const\n"
+       << "}\n\n"
+       << "inline\n"
+       << "mfast::nested_message_cref\n" << cref_scope_.str()
+       << "try_get_nested_message" << index << "() const\n"
        << "{\n"
        << "  return mfast::nested_message_cref((*this)[" << index << "]);\n"
        << "}\n\n"
-- 
2.43.0


From f994139343cb8b93122ebdc563e41e429afc5749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:02 +0000
Subject: [PATCH 16/83] fix: encode with fast_encoder_v2 what the decoders
 expect

---
 .../coder/encoder_v2/fast_encoder_core.cpp    |  5 +-
 .../coder/encoder_v2/fast_encoder_core.h      | 84 ++++++++++++-------
 src/mfast/ext_ref.h                           | 11 ++-
 src/mfast/vector_ref.h                        |  2 +
 4 files changed, 65 insertions(+), 37 deletions(-)

diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.cpp b/src/mfast/coder/encoder_v2/fast_encoder_core.cpp
index c18231a..e47f744 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.cpp
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.cpp
@@ -17,8 +17,11 @@ void fast_encoder_core::encode_segment(const message_cref cref,
 
   template_instruction *instruction = std::get<0>(*info);
 
-  if (force_reset || instruction->has_reset_attribute())
+  if (force_reset || instruction->has_reset_attribute()) {
     repo_.reset_dictionary();
+    // the template identifier is also subject to the reset
+    active_message_info_ = repo_.unique_entry();
+  }
 
   bool need_encode_template_id = (active_message_info_ != info);
 
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 5a00730..02570c7 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -15,29 +15,41 @@ namespace mfast {
 namespace coder {
 template <typename T>
 inline bool equivalent(const int_cref<T> &v, const value_storage &prev) {
-  return v.absent() == prev.is_empty() && v.value() == prev.get<T>();
+  return v.present() && v.value() == prev.get<T>();
 }
 
 inline bool equivalent(const exponent_cref &v, const value_storage &prev) {
-  return v.absent() == prev.is_empty() &&
-         v.value() == prev.of_decimal.exponent_;
+  return v.present() && v.value() == prev.of_decimal.exponent_;
 }
 
 inline bool equivalent(const decimal_cref &v, const value_storage &prev) {
-  return v.absent() == prev.is_empty() &&
-         v.mantissa() == prev.of_decimal.mantissa_ &&
+  return v.present() && v.mantissa() == prev.of_decimal.mantissa_ &&
          v.exponent() == prev.of_decimal.exponent_;
 }
 
 inline bool equivalent(const enum_cref &v, const value_storage &prev) {
-  return v.absent() == prev.is_empty() &&
-         v.value() == prev.of_uint64.content_;
+  return v.present() && v.value() == prev.of_uint64.content_;
 }
 
 template <typename T>
 inline bool equivalent(const vector_cref<T> &v, const value_storage &prev) {
-  return v.size() == prev.of_array.len_ - 1 &&
-         memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) == 0;
+  return v.present() && v.size() == prev.array_length() &&
+         (v.size() == 0 ||
+          memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) == 0);
+}
+
+template <typename T>
+inline bool is_increment(const int_cref<T> &v, const value_storage &prev) {
+  typedef typename std::make_unsigned<T>::type unsigned_type;
+  // incrementing the largest value yields the smallest one
+  return v.present() &&
+         static_cast<unsigned_type>(v.value()) ==
+             static_cast<unsigned_type>(
+                 static_cast<unsigned_type>(prev.get<T>()) + 1);
+}
+
+inline bool is_increment(const exponent_cref &v, const value_storage &prev) {
+  return v.present() && v.value() == prev.of_decimal.exponent_ + 1;
 }
 
 struct fast_encoder_core;
@@ -263,20 +275,14 @@ template <typename T>
 inline void fast_encoder_core::encode_field(const T &ext_ref,
                                             sequence_type_tag) {
 
-  if (ext_ref.get().instruction()->optional() && !ext_ref.present()) {
-    if (T::length_type::has_pmap_type::value)
-      this->current_->set_next_bit(false);
-    if(!std::is_same<typename T::length_type::operator_category, constant_operator_tag>::value &&
-       !std::is_same<typename T::length_type::operator_category, copy_operator_tag>::value &&
-       !std::is_same<typename T::length_type::operator_category, default_operator_tag>::value)
-      strm_.encode_null();
-    return;
-  }
-
   value_storage storage;
 
   typename T::length_type length = ext_ref.get_length(storage);
   this->visit(length);
+
+  if (!ext_ref.present())
+    return;
+
   std::size_t sz = length.get().value();
   for (std::size_t i = 0; i < sz; ++i) {
     this->visit(ext_ref[i]);
@@ -446,8 +452,7 @@ void fast_encoder_core::encode_field(const T &ext_ref, increment_operator_tag,
       // modified by another instruction with the same key and that intruction
       // has optional presence.
     }
-  } else if (cref.value() ==
-             previous.get<const typename T::cref_type::value_type>() + 1) {
+  } else if (is_increment(cref, previous)) {
     pmap.set_next_bit(false);
     return;
   }
@@ -516,7 +521,8 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
     value_storage bv = delta_base_value_of(cref);
     typename T::cref_type base(&bv, nullptr);
 
-    int64_t delta = static_cast<int64_t>(cref.value() - base.value());
+    int64_t delta = static_cast<int64_t>(static_cast<uint64_t>(cref.value()) -
+                                         static_cast<uint64_t>(base.value()));
 
     strm_.encode(delta, false, ext_ref.nullable());
     strm_.save_previous_value(cref);
@@ -542,11 +548,13 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
       difference_type;
 
   std::pair<const_iterator, const_iterator> common_prefix_positions =
-      std::mismatch(cref.begin(), cref.end(), prev_cref.begin());
+      std::mismatch(cref.begin(), cref.end(), prev_cref.begin(),
+                    prev_cref.end());
 
   std::pair<const_reverse_iterator, const_reverse_iterator>
       common_suffix_positions =
-          std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin());
+          std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin(),
+                        prev_cref.rend());
 
   int32_t substraction_len;
   const_iterator delta_iterator;
@@ -595,7 +603,8 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
     delta_storage.of_decimal.exponent_ =
         cref.exponent() - bv.of_decimal.exponent_;
     delta_storage.of_decimal.mantissa_ =
-        cref.mantissa() - bv.of_decimal.mantissa_;
+        static_cast<int64_t>(static_cast<uint64_t>(cref.mantissa()) -
+                             static_cast<uint64_t>(bv.of_decimal.mantissa_));
 
     delta_storage.present(true);
 
@@ -616,15 +625,21 @@ void fast_encoder_core::encode_field(const T &ext_ref, tail_operator_tag,
 
   value_storage &prev = previous_value_of(cref);
 
-  if (equivalent(cref, tail_base_value_of(cref))) {
+  // What the value is when the tail does not appear in the stream depends on
+  // the state of the previous value
+  bool can_be_omitted;
+  if (!prev.is_defined())
+    can_be_omitted = cref.is_initial_value();
+  else if (prev.is_empty())
+    can_be_omitted = !ext_ref.present();
+  else
+    can_be_omitted = equivalent(cref, prev);
+
+  if (can_be_omitted) {
     pmap.set_next_bit(false);
   } else if (!ext_ref.present()) {
-    if (prev.is_defined() && prev.is_empty()) {
-      pmap.set_next_bit(false);
-    } else {
-      pmap.set_next_bit(true);
-      strm_.encode_null();
-    }
+    pmap.set_next_bit(true);
+    strm_.encode_null();
   } else {
     pmap.set_next_bit(true);
 
@@ -646,6 +661,11 @@ void fast_encoder_core::encode_field(const T &ext_ref, tail_operator_tag,
       tail_itr = cref.begin();
       tail_len = static_cast<uint32_t>(cref.size());
     }
+    if (tail_itr == nullptr) {
+      // an empty string; it must not be mistaken for a null value
+      static const typename T::cref_type::value_type empty_tail[1] = {0};
+      tail_itr = empty_tail;
+    }
     strm_.encode(tail_itr, tail_len, cref.instruction(), ext_ref.nullable());
   }
   strm_.save_previous_value(cref);
diff --git a/src/mfast/ext_ref.h b/src/mfast/ext_ref.h
index c4ef130..31948bf 100644
--- a/src/mfast/ext_ref.h
+++ b/src/mfast/ext_ref.h
@@ -58,14 +58,14 @@ struct ext_ref_properties : presence_checker<Properties> {
                                  (OperatorType::value != operator_constant &&
                                   IsOptional)> is_nullable_type;
   typedef std::integral_constant<
-      bool, ((OperatorType::value & field_has_initial_value) > 0 &&
+      bool, ((Properties::value & field_has_initial_value) == 0 &&
              !IsOptional)> mandatory_without_initial_value_type;
   typedef std::integral_constant<bool,
                                  (OperatorType::value > operator_delta ||
                                   ((OperatorType::value == operator_constant) &&
                                    IsOptional))> has_pmap_type;
-  typedef std::integral_constant<bool, (Properties::value ==
-                                        field_previous_value_shared)>
+  typedef std::integral_constant<
+      bool, ((Properties::value & field_previous_value_shared) > 0)>
       previous_value_shared_type;
 
   is_nullable_type nullable() const { return is_nullable_type(); }
@@ -158,7 +158,10 @@ public:
 
     uint32_mref length_mref(nullptr, &storage,
                             base_.instruction()->length_instruction());
-    length_mref.as(base_.size());
+    if (base_.present())
+      length_mref.as(base_.size());
+    else
+      length_mref.omit();
     return length_type(length_mref);
   }
 
diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 278990d..d26b077 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -360,6 +360,8 @@ template <typename T> class int_vector_mref : public vector_mref<T> {
   typedef vector_mref<T> base_type;
 
 public:
+  typedef int_vector_cref<T> cref_type;
+  typedef int_vector_type_tag type_category;
   typedef typename base_type::instruction_cptr instruction_cptr;
   int_vector_mref() {}
   int_vector_mref(mfast::allocator *alloc, value_storage *storage,
-- 
2.43.0


From 28f3357ef56e3bbc8dad71154155cb04af6694ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:02 +0000
Subject: [PATCH 17/83] fix: restore the active template of a decoder after
 nested messages and errors

---
 src/mfast/coder/decoder/fast_decoder.cpp      | 17 +++++++--
 .../coder/decoder_v2/fast_decoder_core.h      | 38 ++++++++++++++-----
 2 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index 8f2c4e9..aa29423 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -214,7 +214,14 @@ inline void fast_decoder_impl::visit(const sequence_element_mref &mref,
 
 inline void fast_decoder_impl::visit(const nested_message_mref &mref, int) {
   pmap_state state;
-  message_type *saved_active_message = active_message_;
+  // the active template of the enclosing segment is restored in any case
+  struct active_message_saver {
+    message_type *&active_;
+    message_type *saved_;
+    explicit active_message_saver(message_type *&active)
+        : active_(active), saved_(active) {}
+    ~active_message_saver() { active_ = saved_; }
+  } saver(active_message_);
 
   debug_ << "decoding dynamic templateRef ...\n";
 
@@ -254,7 +261,6 @@ inline void fast_decoder_impl::visit(const nested_message_mref &mref, int) {
   }
 
   restore_pmap(state);
-  active_message_ = saved_active_message;
 }
 
 message_type *fast_decoder_impl::decode_segment(fast_istreambuf &sb) {
@@ -277,7 +283,12 @@ message_type *fast_decoder_impl::decode_segment(fast_istreambuf &sb) {
     debug_ << "decoded template id = " << template_id << "\n";
 
     // find the message with corresponding template id
-    active_message_ = repo_.find(template_id);
+    message_type *found = repo_.find(template_id);
+    if (found == nullptr) {
+      BOOST_THROW_EXCEPTION(fast_dynamic_error("D9")
+                            << coder::template_id_info(template_id));
+    }
+    active_message_ = found;
   }
 
   if (active_message_ == nullptr) {
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index e2ec220..27558f3 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -101,7 +101,7 @@ public:
 };
 
 template <bool MoreThanOneToken> struct token_base {
-  unsigned current_token_;
+  unsigned current_token_ = 0;
 
   unsigned get_token() const { return current_token_; }
   void set_token(unsigned token) { current_token_ = token; }
@@ -613,29 +613,44 @@ inline fast_decoder_core<NumTokens>::fast_decoder_core(allocator *alloc)
 template <unsigned NumTokens>
 void fast_decoder_core<NumTokens>::visit(const nested_message_mref &mref) {
   decoder_pmap_saver<true_type> saver(this);
-  info_entry *saved_active_info = this->active_message_info_;
+
+  // the active template of the enclosing segment is restored in any case
+  struct active_info_saver {
+    info_entry *&active_;
+    info_entry *saved_;
+    explicit active_info_saver(info_entry *&active)
+        : active_(active), saved_(active) {}
+    ~active_info_saver() { active_ = saved_; }
+  } info_saver(this->active_message_info_);
 
   if (this->current_->is_next_bit_set()) {
     uint32_t template_id;
 
     strm_.decode(template_id, false_type());
     // find the message with corresponding template id
-    active_message_info_ = repo_.find(template_id);
+    info_entry *found = repo_.find(template_id);
 
-    if (active_message_info_ == nullptr) {
+    if (found == nullptr) {
       BOOST_THROW_EXCEPTION(
           fast_dynamic_error("D9")
           << template_id_info(template_id)
           << referenced_by_info(this->active_message().name()));
     }
+    active_message_info_ = found;
   }
 
-  mref.set_target_instruction(this->active_message().instruction(),
-                              false_type());
+  const template_instruction *target = this->active_message().instruction();
+
+  if (target->has_reset_attribute())
+    repo_.reset_dictionary();
+
+  if (mref.target_instruction() != target) {
+    // the strings in the old target may still be the previous values
+    repo_.detach_previous_values();
+    mref.set_target_instruction(target);
+  }
   message_decode_function_t decode = active_message_info_->decode_fun_;
   (this->*decode)(mref.target());
-
-  this->active_message_info_ = saved_active_info;
 }
 
 template <unsigned NumTokens>
@@ -653,7 +668,12 @@ fast_decoder_core<NumTokens>::decode_segment(fast_istreambuf &sb) {
     strm_.decode(template_id, false_type());
 
     // find the message with corresponding template id
-    active_message_info_ = repo_.find(template_id);
+    info_entry *found = repo_.find(template_id);
+    if (found == nullptr) {
+      BOOST_THROW_EXCEPTION(fast_dynamic_error("D9")
+                            << coder::template_id_info(template_id));
+    }
+    active_message_info_ = found;
   }
 
   if (active_message_info_ == nullptr) {
-- 
2.43.0


From 2e56dfa9afaeaa83255514765e4290879eea602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:02 +0000
Subject: [PATCH 18/83] fix: decode exponent increments in v2 and bound
 allocations by the stream

---
 src/mfast/coder/decoder/fast_decoder.cpp      | 23 +++++++----
 src/mfast/coder/decoder/fast_istream.h        | 15 +++++++
 .../coder/decoder_v2/fast_decoder_core.h      | 39 +++++++++++++++----
 3 files changed, 61 insertions(+), 16 deletions(-)

diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index aa29423..58da334 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -129,6 +129,10 @@ void fast_decoder_impl::visit(const int_vector_mref<IntType> &mref) {
     return;
   }
 
+  // every element occupies at least one byte of the stream
+  if (length > strm_.in_avail())
+    BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
+
   mref.resize(length);
   for (uint32_t i = 0; i < length; ++i) {
     strm_.decode(mref[i], false);
@@ -180,18 +184,21 @@ inline void fast_decoder_impl::visit(const sequence_mref &mref, int) {
   this->visit(length_mref);
 
   if (length_mref.present()) {
-    debug_ << "  decoded sequence length " << length_mref.value() << "\n";
-    mref.resize(length_mref.value());
+    const std::size_t length = length_mref.value();
+    debug_ << "  decoded sequence length " << length << "\n";
+
+    // The length cannot be trusted until the elements have been seen; do not
+    // allocate far more elements than the rest of the stream can contain.
+    std::size_t i = 0;
+    do {
+      mref.resize(decodable_sequence_size(length, i, strm_.in_avail()));
+      for (; i < mref.size(); ++i)
+        this->visit(mref[i], static_cast<int>(i));
+    } while (i < length);
   } else {
     debug_ << "  " << mref.name() << "is absent\n";
     mref.omit();
   }
-  if (length_mref.present() && length_mref.value() > 0) {
-    int i = 0;
-    for (auto &&elem : mref) {
-      this->visit(elem, i++);
-    }
-  }
 }
 
 inline void fast_decoder_impl::visit(const sequence_element_mref &mref,
diff --git a/src/mfast/coder/decoder/fast_istream.h b/src/mfast/coder/decoder/fast_istream.h
index 2beae79..d013335 100644
--- a/src/mfast/coder/decoder/fast_istream.h
+++ b/src/mfast/coder/decoder/fast_istream.h
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #pragma once
 
+#include <algorithm>
 #include <limits>
 
 #include "../../instructions/string_instructions.h"
@@ -14,6 +15,19 @@
 
 namespace mfast {
 class fast_istream;
+
+/// How many elements of a sequence should be allocated when @a decoded out of
+/// @a length elements have been decoded and @a avail bytes are left.
+inline std::size_t decodable_sequence_size(std::size_t length,
+                                           std::size_t decoded,
+                                           std::size_t avail) {
+  // elements usually occupy at least one byte; those which don't are allocated
+  // gradually.
+  const std::size_t increment = std::max(std::max(decoded, avail),
+                                         static_cast<std::size_t>(16));
+  return length - decoded > increment ? decoded + increment : length;
+}
+
 std::ostream &operator<<(std::ostream &os, const fast_istream &istream);
 class fast_istream {
 public:
@@ -22,6 +36,7 @@ public:
   void reset(fast_istreambuf *sb);
 
   bool eof() const { return buf_->in_avail() == 0; }
+  std::size_t in_avail() const { return buf_->in_avail(); }
   bool operator!() const { return buf_->in_avail() == 0; }
   /**
    * Decode an integer and store the result in @a result.
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index 27558f3..525f976 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -24,6 +24,20 @@ struct fast_decoder_base;
 typedef void (fast_decoder_base::*message_decode_function_t)(
     const message_mref &);
 
+template <typename T>
+inline void increment_previous_value(const int_mref<T> &,
+                                     value_storage &previous) {
+  typedef typename std::make_unsigned<T>::type unsigned_type;
+  // incrementing the largest value yields the smallest one
+  previous.set<T>(static_cast<T>(
+      static_cast<unsigned_type>(previous.get<T>()) + 1));
+}
+
+inline void increment_previous_value(const exponent_mref &,
+                                     value_storage &previous) {
+  previous.of_decimal.exponent_ += 1;
+}
+
 struct MFAST_CODER_EXPORT fast_decoder_base : detail::codec_helper {
   fast_decoder_base(allocator *alloc);
 
@@ -220,6 +234,10 @@ inline void fast_decoder_base::decode_field(const T &ext_ref,
     return;
   }
 
+  // every element occupies at least one byte of the stream
+  if (length > this->strm_.in_avail())
+    BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
+
   mref.resize(length);
   for (uint32_t i = 0; i < length; ++i) {
     this->strm_.decode(mref[i], false_type());
@@ -251,12 +269,18 @@ inline void fast_decoder_base::decode_field(const T &ext_ref,
   this->visit(length);
 
   if (length.present()) {
-    std::size_t len = length.get().value();
-    ext_ref.set().resize(len);
-
-    for (std::size_t i = 0; i < len; ++i) {
-      this->visit(ext_ref[i]);
-    }
+    const std::size_t len = length.get().value();
+
+    // The length cannot be trusted until the elements have been seen; do not
+    // allocate far more elements than the rest of the stream can contain.
+    std::size_t i = 0;
+    do {
+      const std::size_t n =
+          decodable_sequence_size(len, i, this->strm_.in_avail());
+      ext_ref.set().resize(n);
+      for (; i < n; ++i)
+        this->visit(ext_ref[i]);
+    } while (i < len);
   } else {
     ext_ref.omit();
   }
@@ -410,8 +434,7 @@ void fast_decoder_base::decode_field(const T &ext_ref, increment_operator_tag,
       }
 
     } else {
-      typedef typename T::mref_type::value_type value_type;
-      previous.set<value_type>(previous.get<value_type>() + 1);
+      increment_previous_value(mref, previous);
       // if the previous value is assigned – the value of the field is the
       // previous value.
       load_previous_value(mref);
-- 
2.43.0


From 4c847d81fcaac076a18c50b78eda541a3a387e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:21 +0000
Subject: [PATCH 19/83] fix: generated sequences whose elements are only a
 dynamic templateRef

---
 src/fast_type_gen/inl_gen.cpp | 10 ++++++++--
 src/mfast/ext_ref.h           | 36 +++++++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/fast_type_gen/inl_gen.cpp b/src/fast_type_gen/inl_gen.cpp
index 9f11812..4055207 100644
--- a/src/fast_type_gen/inl_gen.cpp
+++ b/src/fast_type_gen/inl_gen.cpp
@@ -155,7 +155,10 @@ void ext_cref_type_getter::visit(const sequence_field_instruction *inst,
   out_ << "ext_cref< sequence_cref, ext_cref<uint32_cref, "
        << get_operator_tag(length_inst) << ", "
        << get_properties_type(length_inst) << ">, ";
-  if (element_inst)
+  if (element_inst && element_inst->field_type() == field_type_templateref)
+    out_ << "ext_cref< nested_message_cref, sequence_element_tag,"
+         << get_properties_type(inst) << "> >";
+  else if (element_inst)
     out_ << "ext_cref< typename " << codegen_base::cpp_name(inst)
          << "_cref::reference, " << get_operator_tag(element_inst) << ", "
          << get_properties_type(element_inst) << " > >";
@@ -287,7 +290,10 @@ void ext_mref_type_getter::visit(const sequence_field_instruction *inst,
   out_ << "ext_mref< sequence_mref, ext_mref<uint32_mref, "
        << get_operator_tag(length_inst) << ", "
        << get_properties_type(length_inst) << ">, ";
-  if (element_inst && element_inst != inst)
+  if (element_inst && element_inst->field_type() == field_type_templateref)
+    out_ << "ext_mref< nested_message_mref, sequence_element_tag,"
+         << get_properties_type(inst) << "> >";
+  else if (element_inst && element_inst != inst)
     out_ << "ext_mref< typename " << codegen_base::cpp_name(inst)
          << "_mref::reference, " << get_operator_tag(element_inst) << ", "
          << get_properties_type(element_inst) << " > >";
diff --git a/src/mfast/ext_ref.h b/src/mfast/ext_ref.h
index 31948bf..dc4ffb2 100644
--- a/src/mfast/ext_ref.h
+++ b/src/mfast/ext_ref.h
@@ -236,6 +236,23 @@ private:
   bool group_present_ = true;
 };
 
+// A sequence element that consists of nothing but a dynamic template reference
+template <typename Properties>
+class ext_cref<nested_message_cref, sequence_element_tag, Properties>
+    : public ext_ref_properties<group_type_tag, Properties> {
+public:
+  typedef nested_message_cref cref_type;
+  typedef group_type_tag type_category;
+  typedef invalid_operator_tag operator_category;
+
+  explicit ext_cref(const aggregate_cref &other) : base_(other[0]) {}
+  cref_type get() const { return base_; }
+  bool present() const { return true; }
+
+private:
+  nested_message_cref base_;
+};
+
 ///////////////////////////////////////////////////////////////
 
 template <typename BaseMRef, typename OpType, typename Properties>
@@ -400,4 +417,23 @@ private:
   field_mref base_;
 };
 
+template <typename Properties>
+class ext_mref<nested_message_mref, sequence_element_tag, Properties>
+    : public ext_ref_properties<group_type_tag, Properties> {
+public:
+  typedef nested_message_mref mref_type;
+  typedef nested_message_cref cref_type;
+  typedef group_type_tag type_category;
+  typedef invalid_operator_tag operator_category;
+
+  explicit ext_mref(const aggregate_mref &other) : base_(other[0]) {}
+  mref_type set() const { return base_; }
+  cref_type get() const { return cref_type(base_); }
+  bool present() const { return true; }
+  void omit() const {}
+
+private:
+  nested_message_mref base_;
+};
+
 } /* mfast */
-- 
2.43.0


From 51873b7154f6e2515e04c463c0c0584219846ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:15 +0000
Subject: [PATCH 20/83] fix: report integers outside their type instead of
 wrapping them

---
 src/mfast/coder/decoder/fast_istream.h | 145 ++++++++++---------------
 1 file changed, 57 insertions(+), 88 deletions(-)

diff --git a/src/mfast/coder/decoder/fast_istream.h b/src/mfast/coder/decoder/fast_istream.h
index d013335..6ea6fc6 100644
--- a/src/mfast/coder/decoder/fast_istream.h
+++ b/src/mfast/coder/decoder/fast_istream.h
@@ -47,6 +47,17 @@ public:
   enable_if_t<std::is_integral<T>::value, bool> decode(T &result,
                                                        Nullable nullable);
 
+  /**
+   * Decode the difference between two integers of up to 64 bits.
+   *
+   * The difference can take one bit more than the integers; only the lower 64
+   * bits, which are all it takes to add it to the base value, are stored.
+   *
+   * @return false if the decoded value is null
+   **/
+  template <typename Nullable>
+  bool decode_delta(int64_t &result, Nullable nullable);
+
   void decode(decoder_presence_map &pmap) {
     if (!pmap.load(*buf_)) {
       while (0 == (buf_->sbumpc() & 0x80))
@@ -150,115 +161,73 @@ private:
   friend std::ostream &operator<<(std::ostream &os,
                                   const fast_istream &istream);
 
+  bool decode_bits(uint64_t &low, int &high, bool is_signed, bool nullable);
   const char *gptr() const { return buf_->gptr_; }
   const char *egptr() const { return buf_->egptr_; }
   fast_istreambuf *buf_;
   std::ostream *warning_log_;
 };
 
-namespace detail {
-template <typename T> struct int_trait;
-
-template <>
-struct int_trait<int16_t> // only used for decoding decimal exponent
-{
-  typedef int16_t temp_type;
-};
-
-template <> struct int_trait<int32_t> { typedef int32_t temp_type; };
-
-template <> struct int_trait<uint32_t> { typedef uint64_t temp_type; };
-
-template <> struct int_trait<int64_t> { typedef int64_t temp_type; };
-
-struct temp_uint64_t {
-  uint64_t value;
-  bool carry;
-
-  temp_uint64_t(int) : value(0), carry(false) {}
-  temp_uint64_t &operator=(uint64_t other) {
-    value = other;
-    return *this;
-  }
-
-  temp_uint64_t &operator|=(uint64_t other) {
-    value |= other;
-    return *this;
-  }
+inline fast_istream::fast_istream(fast_istreambuf *sb)
+    : buf_(sb), warning_log_(nullptr) {}
+inline void fast_istream::reset(fast_istreambuf *sb) { buf_ = sb; }
 
-  temp_uint64_t &
-  operator<<=(int /* shiftbits */) // shiftbits should always be 7
-  {
-    carry = (value == 0x0200000000000000ULL);
-    value <<= 7;
-    return *this;
+inline bool fast_istream::decode_bits(uint64_t &low, int &high, bool is_signed,
+                                      bool nullable) {
+  char c = buf_->sbumpc();
+  low = c & 0x7F;
+  high = 0;
+  if (is_signed && (c & 0x40)) {
+    // this is a negative integer
+    low |= ~static_cast<uint64_t>(0x7F);
+    high = -1;
   }
 
-  operator uint64_t() const { return value; }
-  uint64_t operator-(int x) const { return value - x; }
-};
-
-template <typename T>
-inline bool to_nullable_value(T &result, typename int_trait<T>::temp_type tmp,
-                              int decrement_value) {
-  if (tmp == 0) {
-    return false;
+  while ((c & 0x80) == 0) {
+    high = high * 128 + static_cast<int>(low >> 57);
+    if (high < -2 || high > 2)
+      BOOST_THROW_EXCEPTION(fast_dynamic_error("D2"));
+    low <<= 7;
+    c = buf_->sbumpc();
+    low |= (c & 0x7F);
   }
-  result = static_cast<T>(tmp - decrement_value);
-  return true;
-}
 
-template <> struct int_trait<uint64_t> { typedef temp_uint64_t temp_type; };
-
-inline bool to_nullable_value(uint64_t &result, temp_uint64_t tmp,
-                              int decrement_value) {
-  if (tmp.value == 0) {
-    if (!tmp.carry)
-      return false;
-    else {
-      result = std::numeric_limits<uint64_t>::max();
+  if (nullable && high >= 0) {
+    if (low == 0) {
+      if (high == 0)
+        return false;
+      --high;
     }
-  } else
-    result = tmp - decrement_value;
+    --low;
+  }
   return true;
 }
-}
 
-inline fast_istream::fast_istream(fast_istreambuf *sb)
-    : buf_(sb), warning_log_(nullptr) {}
-inline void fast_istream::reset(fast_istreambuf *sb) { buf_ = sb; }
 template <typename T, typename Nullable>
 enable_if_t<std::is_integral<T>::value, bool>
 fast_istream::decode(T &result, Nullable nullable) {
-  typename detail::int_trait<T>::temp_type tmp = 0;
+  uint64_t low;
+  int high;
+  if (!decode_bits(low, high, std::is_signed<T>::value, nullable))
+    return false;
 
-  char c = buf_->sbumpc();
-  // bool decrement_value = true;
-  int decrement_value = nullable;
-  if (std::is_unsigned<T>::value) {
-    tmp = c & 0x7F;
-  } else {
-    if (c & 0x40) {
-      // this is a negative integer
-      decrement_value = 0;
-      tmp = (static_cast<T>(-1) ^ 0x7F ) | (c & 0x7F);
-    } else {
-      // positive integer, mask the most significant two bits
-      tmp = c & 0x3F;
-    }
-  }
+  result = static_cast<T>(low);
+  const int sign = std::is_signed<T>::value && result < 0 ? -1 : 0;
+  if (high != sign || static_cast<uint64_t>(result) != low)
+    BOOST_THROW_EXCEPTION(fast_dynamic_error("D2"));
+  return true;
+}
 
-  while ((c & 0x80) == 0) {
-    tmp <<= 7;
-    c = buf_->sbumpc();
-    tmp |= (c & 0x7F);
-  };
+template <typename Nullable>
+bool fast_istream::decode_delta(int64_t &result, Nullable nullable) {
+  uint64_t low;
+  int high;
+  if (!decode_bits(low, high, true, nullable))
+    return false;
 
-  if (nullable) {
-    return detail::to_nullable_value(result, tmp, decrement_value);
-  } else {
-    result = static_cast<T>(tmp);
-  }
+  if (high != 0 && high != -1)
+    BOOST_THROW_EXCEPTION(fast_dynamic_error("D2"));
+  result = static_cast<int64_t>(low);
   return true;
 }
 }
-- 
2.43.0


From 40f02cb538822b490bcc2362fd0794c3355688c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:15 +0000
Subject: [PATCH 21/83] fix: write and read integer differences beyond 64 bits

---
 .../coder/decoder/decoder_field_operator.cpp  | 10 ++++---
 .../coder/decoder_v2/fast_decoder_core.h      | 12 ++++++---
 .../coder/encoder/encoder_field_operator.cpp  | 21 +++++----------
 src/mfast/coder/encoder/fast_ostream.h        | 26 +++++++++++++++++++
 .../coder/encoder_v2/fast_encoder_core.h      | 19 +++-----------
 5 files changed, 52 insertions(+), 36 deletions(-)

diff --git a/src/mfast/coder/decoder/decoder_field_operator.cpp b/src/mfast/coder/decoder/decoder_field_operator.cpp
index a7b1c62..f998866 100644
--- a/src/mfast/coder/decoder/decoder_field_operator.cpp
+++ b/src/mfast/coder/decoder/decoder_field_operator.cpp
@@ -433,7 +433,7 @@ class delta_operator : public decoder_field_operator,
   template <typename T>
   void decode_integer(const T &mref, fast_istream &stream) const {
     int64_t d;
-    if (stream.decode(d, mref.instruction()->is_nullable())) {
+    if (stream.decode_delta(d, mref.instruction()->is_nullable())) {
 
       value_storage bv = delta_base_value_of(mref);
       T tmp(nullptr, &bv, nullptr);
@@ -509,8 +509,12 @@ public:
   virtual void decode(const decimal_mref &mref, fast_istream &stream,
                       decoder_presence_map &pmap) const override {
     if (!mref.has_individual_operators()) {
-      stream >> mref;
-      if (mref.present()) {
+      int16_t exponent;
+      if (stream.decode(exponent, mref.instruction()->is_nullable())) {
+        int64_t mantissa;
+        stream.decode_delta(mantissa, std::false_type());
+        mref.set_mantissa(mantissa);
+        mref.set_exponent(exponent);
         value_storage bv = delta_base_value_of(mref);
 
         check_overflow(bv.of_decimal.mantissa_, mref.mantissa(),
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index 525f976..3a2b326 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -486,7 +486,7 @@ void fast_decoder_base::decode_field(const T &ext_ref, delta_operator_tag,
   typedef typename T::mref_type::value_type int_type;
 
   int64_t d;
-  if (stream.decode(d, ext_ref.nullable())) {
+  if (stream.decode_delta(d, ext_ref.nullable())) {
     value_storage bv = delta_base_value_of(mref);
     typename T::mref_type tmp(nullptr, &bv, nullptr);
 
@@ -547,8 +547,12 @@ void fast_decoder_base::decode_field(const T &ext_ref, delta_operator_tag,
                                      decimal_type_tag) {
   fast_istream &stream = this->strm_;
   decimal_mref mref = ext_ref.set();
-  stream >> ext_ref;
-  if (!ext_ref.optional() || mref.present()) {
+  int16_t exponent;
+  if (stream.decode(exponent, ext_ref.nullable())) {
+    int64_t mantissa;
+    stream.decode_delta(mantissa, false_type());
+    mref.set_mantissa(mantissa);
+    mref.set_exponent(exponent);
     value_storage bv = delta_base_value_of(mref);
 
     // check_overflow(bv.of_decimal.mantissa_, mref.mantissa(),
@@ -561,6 +565,8 @@ void fast_decoder_base::decode_field(const T &ext_ref, delta_operator_tag,
     //   BOOST_THROW_EXCEPTION(fast_reportable_error("R1"));
     //
     save_previous_value(mref);
+  } else {
+    mref.omit();
   }
 }
 
diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index 75b1ad9..db2ca5b 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -469,11 +469,8 @@ class delta_operator : public encoder_field_operator,
       value_storage bv = delta_base_value_of(cref);
       T base(&bv, nullptr);
 
-      int64_t delta =
-          static_cast<int64_t>(static_cast<uint64_t>(cref.value()) -
-                               static_cast<uint64_t>(base.value()));
-
-      stream.encode(delta, false, cref.instruction()->is_nullable());
+      stream.encode_delta(cref.value(), base.value(),
+                          cref.instruction()->is_nullable());
       stream.save_previous_value(cref);
     }
   }
@@ -567,16 +564,10 @@ public:
       if (cref.present()) {
         value_storage bv = delta_base_value_of(cref);
 
-        value_storage delta_storage;
-        delta_storage.of_decimal.exponent_ =
-            cref.exponent() - bv.of_decimal.exponent_;
-        delta_storage.of_decimal.mantissa_ =
-            static_cast<int64_t>(static_cast<uint64_t>(cref.mantissa()) -
-                                 static_cast<uint64_t>(bv.of_decimal.mantissa_));
-        delta_storage.of_decimal.present_ = cref.present();
-
-        decimal_cref delta(&delta_storage, cref.instruction());
-        stream << delta;
+        stream.encode_delta(cref.exponent(), bv.of_decimal.exponent_,
+                            cref.instruction()->is_nullable());
+        stream.encode_delta(cref.mantissa(), bv.of_decimal.mantissa_,
+                            std::false_type());
 
         stream.save_previous_value(cref);
       } else {
diff --git a/src/mfast/coder/encoder/fast_ostream.h b/src/mfast/coder/encoder/fast_ostream.h
index e9036ae..d063029 100644
--- a/src/mfast/coder/encoder/fast_ostream.h
+++ b/src/mfast/coder/encoder/fast_ostream.h
@@ -21,6 +21,10 @@ public:
   template <typename IntType, typename Nullable>
   void encode(IntType t, bool is_null, Nullable nullable);
 
+  /// Encode value - base, which can take one bit more than either of them.
+  template <typename IntType, typename Nullable>
+  void encode_delta(IntType value, IntType base, Nullable nullable);
+
   template <typename Nullable>
   void encode(const char *ascii, uint32_t len,
               const ascii_field_instruction * /* instruction */,
@@ -167,6 +171,28 @@ void fast_ostream::encode(IntType value, bool is_null, Nullable nullable) {
   rdbuf()->sputn(buffer + i, max_encoded_length - i);
 }
 
+template <typename IntType, typename Nullable>
+void fast_ostream::encode_delta(IntType value, IntType base,
+                                Nullable nullable) {
+  uint64_t delta = static_cast<uint64_t>(value) - static_cast<uint64_t>(base);
+  const bool negative = value < base;
+  if (((delta >> 63) != 0) == negative) {
+    encode(static_cast<int64_t>(delta), false, nullable);
+    return;
+  }
+
+  // the difference takes 65 bits
+  int high = negative ? -1 : 0;
+  if (nullable && !negative && ++delta == 0)
+    high = 1;
+  char buffer[10];
+  buffer[0] = static_cast<char>(((high * 2) & 0x7F) | (delta >> 63));
+  for (int i = 1; i < 10; ++i)
+    buffer[i] = static_cast<char>((delta >> (7 * (9 - i))) & 0x7F);
+  buffer[9] |= 0x80; // stop bit
+  rdbuf()->sputn(buffer, 10);
+}
+
 template <typename Nullable>
 inline void
 fast_ostream::encode(const char *ascii, uint32_t len,
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 02570c7..e880d20 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -521,10 +521,7 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
     value_storage bv = delta_base_value_of(cref);
     typename T::cref_type base(&bv, nullptr);
 
-    int64_t delta = static_cast<int64_t>(static_cast<uint64_t>(cref.value()) -
-                                         static_cast<uint64_t>(base.value()));
-
-    strm_.encode(delta, false, ext_ref.nullable());
+    strm_.encode_delta(cref.value(), base.value(), ext_ref.nullable());
     strm_.save_previous_value(cref);
   }
 }
@@ -599,17 +596,9 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
 
     value_storage bv = delta_base_value_of(cref);
 
-    value_storage delta_storage;
-    delta_storage.of_decimal.exponent_ =
-        cref.exponent() - bv.of_decimal.exponent_;
-    delta_storage.of_decimal.mantissa_ =
-        static_cast<int64_t>(static_cast<uint64_t>(cref.mantissa()) -
-                             static_cast<uint64_t>(bv.of_decimal.mantissa_));
-
-    delta_storage.present(true);
-
-    decimal_cref delta(&delta_storage, cref.instruction());
-    strm_ << T(delta);
+    strm_.encode_delta(cref.exponent(), bv.of_decimal.exponent_,
+                       ext_ref.nullable());
+    strm_.encode_delta(cref.mantissa(), bv.of_decimal.mantissa_, false_type());
 
     strm_.save_previous_value(cref);
   } else {
-- 
2.43.0


From ce962f8cb7c3b3419e5ae4384b9006a58513a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:56 +0000
Subject: [PATCH 22/83] fix: accept fields with a namespace

---
 src/mfast/xml_parser/field_builder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 644f3f4..4770d01 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -119,6 +119,9 @@ const field_instruction *field_builder::find_prototype(const char *type_name) {
 
   if (instruction == nullptr) {
     instruction = this->find_type(ns_, type_name);
+    // the namespace of a field does not apply to the types of FAST
+    if (instruction == nullptr && ns_)
+      instruction = this->find_type(nullptr, type_name);
   }
 
   if (instruction == nullptr) {
-- 
2.43.0


From 06e65f8ade29f7cc3de9a6a170c46c9a923eccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:56 +0000
Subject: [PATCH 23/83] fix: qualify dictionary keys by the namespace of fields
 and definitions

---
 src/mfast/coder/common/dictionary_builder.cpp | 8 ++++++--
 src/mfast/coder/common/dictionary_builder.h   | 7 +++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index 3290e26..10db5c5 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -110,7 +110,10 @@ dictionary_builder::clone_instruction(const template_instruction *src_inst) {
 
   const char *ns = src_inst->ns();
   if (is_empty_string(ns)) {
-    ns = current_ns_;
+    ns = src_inst->template_ns();
+  }
+  if (is_empty_string(ns)) {
+    ns = current_template_ns_;
   }
   current_template_ = qualified_name(ns, src_inst->name());
 
@@ -193,7 +196,8 @@ value_storage *dictionary_builder::get_dictionary_storage(
   if (op_context) {
     if (!is_empty_string(op_context->key_))
       key = op_context->key_;
-    ns = op_context->ns_;
+    if (!is_empty_string(op_context->ns_))
+      ns = op_context->ns_;
     dict = op_context->dictionary_;
   }
 
diff --git a/src/mfast/coder/common/dictionary_builder.h b/src/mfast/coder/common/dictionary_builder.h
index 03650fd..18b6895 100644
--- a/src/mfast/coder/common/dictionary_builder.h
+++ b/src/mfast/coder/common/dictionary_builder.h
@@ -59,7 +59,8 @@ public:
 
   template <typename Operation>
   void build(const Operation &op, const templates_description *def) {
-    current_ns_ = def->template_ns();
+    current_ns_ = def->ns();
+    current_template_ns_ = def->template_ns();
     current_dictionary_ =
         (def->dictionary()[0] == 0) ? "global" : def->dictionary();
     for (auto &elem : *def) {
@@ -77,7 +78,8 @@ public:
 private:
   template <typename Operation, typename Description>
   int build(const Operation &op, const Description *desc) {
-    this->current_ns_ = desc->template_ns();
+    this->current_ns_ = desc->ns();
+    this->current_template_ns_ = desc->template_ns();
     this->current_dictionary_ =
         (desc->dictionary()[0] == 0) ? "global" : desc->dictionary();
 
@@ -150,6 +152,7 @@ private:
   std::string current_template_;
   std::string current_type_;
   const char *current_ns_;
+  const char *current_template_ns_;
   const char *current_dictionary_;
 
   template_repo_base &repo_base_;
-- 
2.43.0


From a4ecbe27fce003b4eddb75c32ff86d0db0f1cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:50 +0000
Subject: [PATCH 24/83] fix: write the largest nullable exponent

---
 src/mfast/coder/encoder/fast_ostream.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mfast/coder/encoder/fast_ostream.h b/src/mfast/coder/encoder/fast_ostream.h
index d063029..a2c9094 100644
--- a/src/mfast/coder/encoder/fast_ostream.h
+++ b/src/mfast/coder/encoder/fast_ostream.h
@@ -111,7 +111,13 @@ inline bool encode_max_value(int32_t &value, fast_ostreambuf *buf) {
   return false;
 }
 
-inline bool encode_max_value(int16_t &, fast_ostreambuf *) { return false; }
+inline bool encode_max_value(int16_t &value, fast_ostreambuf *buf) {
+  if (value == (std::numeric_limits<int16_t>::max)()) {
+    buf->sputn("\x02\x00\x80", 3);
+    return true;
+  }
+  return false;
+}
 }
 
 template <typename IntType, typename Nullable>
-- 
2.43.0


From fa614654dee9502a4add9866bc94a6f43f4e3e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:26 +0000
Subject: [PATCH 25/83] fix: int_vector_mref::swap takes another mref

---
 src/mfast/vector_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index d26b077..79d0a18 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -374,7 +374,7 @@ public:
     return int_vector_cref<T>(this->storage(), this->instruction());
   }
 
-  void swap(const int_vector_cref<T> &other) const { base_type::swap(other); }
+  void swap(const int_vector_mref<T> &other) const { base_type::swap(other); }
 };
 
 typedef vector_mref<unsigned char> byte_vector_mref;
-- 
2.43.0


From 68c68423ec187372576cd85979770d0b0ca12329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:08 +0000
Subject: [PATCH 26/83] fix: keep all the elements inserted into an omitted
 vector

---
 src/mfast/vector_ref.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 79d0a18..9441b5c 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -473,7 +473,9 @@ vector_mref_base<T>::shift(typename vector_mref_base<T>::iterator position,
     std::memmove(src + n, src, (this->size() - offset) * sizeof(value_type));
   }
 
-  this->storage()->of_array.len_ += static_cast<uint32_t>(n);
+  // len_ is 0 for an absent value, even when it still owns some memory
+  if (n > 0)
+    this->storage()->array_length(static_cast<uint32_t>(this->size() + n));
   return src;
 }
 
-- 
2.43.0


From 1d36022f5711dbada88c89fe1d15d068a007fee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:23 +0000
Subject: [PATCH 27/83] fix: vector replace leaves memory it does not own alone

---
 src/mfast/vector_ref.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 9441b5c..8a35b66 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -491,11 +491,14 @@ void vector_mref_base<T>::replace(size_t pos, size_t count,
       // some elements has to be shift back
       this->shift(data() + pos, diff);
     } else {
+      // the elements must not be moved inside memory owned by somebody else
+      this->reserve(this->size());
       std::memmove(data() + pos + count2, data() + pos + count,
                    (this->size() - pos - count) * sizeof(value_type));
       this->resize(this->size() + diff);
     }
   }
-  std::memcpy(data() + pos, addr, count2 * sizeof(value_type));
+  if (count2 > 0)
+    std::memcpy(data() + pos, addr, count2 * sizeof(value_type));
 }
 }
-- 
2.43.0


From d481ce38dc9941ed7afd18d5119f4f3cf0b2f55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:00 +0000
Subject: [PATCH 28/83] fix: reserve keeps the elements of memory it replaces

---
 src/mfast/vector_ref.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 8a35b66..7c77b26 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -4,6 +4,7 @@
 // This file is part of mFAST.
 // See the file license.txt for licensing information.
 #pragma once
+#include <algorithm>
 #include <cassert>
 #include <iterator>
 #include <cstring>
@@ -429,6 +430,8 @@ void vector_mref_base<T>::reserve(
     typename vector_mref_base<T>::size_t n) const {
   if (capacity() > n)
     return;
+  // a buffer which replaces memory owned by somebody else keeps all elements
+  n = (std::max)(n, this->size());
   std::size_t reserve_size = (n + 1) * sizeof(value_type);
 
   if (capacity() > 0) {
@@ -441,13 +444,9 @@ void vector_mref_base<T>::reserve(
     this->storage()->of_array.capacity_in_bytes_ = this->alloc_->reallocate(
         this->storage()->of_array.content_, 0, reserve_size);
     // Copy the old content to the new buffer.
-    // In the case when the this->capacity == 0 && this->size() > 0,
-    // reserve() could be invoked with n < this->size(). Thus, we can
-    // only copy min(size(), n) elements to the new buffer.
     if (this->storage()->of_array.len_ > 1) {
-      if (n > 0)
-        std::memcpy(this->storage()->of_array.content_, old_addr,
-                    std::min<size_t>(this->size(), n) * sizeof(value_type));
+      std::memcpy(this->storage()->of_array.content_, old_addr,
+                  this->size() * sizeof(value_type));
     } else {
       // if this->storage()->of_array.len_ was 0, it needs to be set to 1 to
       // indicate
-- 
2.43.0


From 63f885d211e409c214c3daf08a4cb23e7c9039ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:55 +0000
Subject: [PATCH 29/83] fix: leave room for the null written by c_str()

---
 src/mfast/vector_ref.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 7c77b26..d869a5b 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -463,7 +463,8 @@ vector_mref_base<T>::shift(typename vector_mref_base<T>::iterator position,
   assert(position >= begin() && position <= end());
   std::size_t offset = position - begin();
 
-  if (capacity() < this->size() + n)
+  // one more element than needed is reserved, for the null after a c_str()
+  if (capacity() <= this->size() + n)
     reserve(this->size() + n);
 
   iterator src = begin() + offset;
-- 
2.43.0


From 6acfc7bc6dab0a51c00a049fadf0a9b1a83b1189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:56 +0000
Subject: [PATCH 30/83] fix: a string is not greater than an equal one

---
 src/mfast/string_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/string_ref.h b/src/mfast/string_ref.h
index 87d01fa..ec203dd 100644
--- a/src/mfast/string_ref.h
+++ b/src/mfast/string_ref.h
@@ -48,7 +48,7 @@ public:
   }
   template <typename OtherIntruction>
   bool operator>(const string_cref_base<OtherIntruction> &other) const {
-    return compare(other) >= 0;
+    return compare(other) > 0;
   }
 
   bool operator>=(const boost::string_ref &other) const {
-- 
2.43.0


From bb717512fe845ee234e4d8c740d325f13dabb1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:44 +0000
Subject: [PATCH 31/83] fix: assignment of sequences, and their crend()

---
 src/mfast/sequence_ref.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mfast/sequence_ref.h b/src/mfast/sequence_ref.h
index 384abac..f4eafe2 100644
--- a/src/mfast/sequence_ref.h
+++ b/src/mfast/sequence_ref.h
@@ -250,7 +250,7 @@ public:
     return boost::make_reverse_iterator(this->begin());
   }
   const_reverse_iterator crbegin() const { return this->rbegin(); }
-  const_reverse_iterator crend() const { return this->rbegin(); }
+  const_reverse_iterator crend() const { return this->rend(); }
   /**
    * @returns true if the sequence contains only one sub-field and the field is
    *unnamed.
@@ -355,9 +355,8 @@ public:
   template <typename RandomAccessIterator>
   void assign(RandomAccessIterator first, RandomAccessIterator last) const {
     resize(std::distance(first, last));
-    RandomAccessIterator itr;
     iterator dest = begin();
-    for (itr = first; itr != last; ++itr, ++dest)
+    for (RandomAccessIterator itr = first; itr != last; ++itr, ++dest)
       dest->as(*itr);
   }
 
@@ -453,9 +452,10 @@ inline void
 make_sequence_mref<ElementType, SequenceTrait, SequenceInstructionType>::as(
     const cref_type &src) const {
   value_storage tmp_storage;
-  this->instruction()->copy_construct_value(*src.storage_, tmp_storage,
-                                            this->alloc_);
-  std::swap(tmp_storage, const_cast<value_storage &>(*this->storage_));
-  this->instruction()->destruct_value(tmp_storage);
+  this->instruction()->copy_construct_value(
+      *field_cref_core_access::storage_of(src), tmp_storage, this->alloc_,
+      nullptr);
+  std::swap(tmp_storage, *this->storage());
+  this->instruction()->destruct_value(tmp_storage, this->alloc_);
 }
 }
-- 
2.43.0


From ba0a307be045ebde8c87e7e6be13c399ae99439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:23 +0000
Subject: [PATCH 32/83] fix: compare presence and type of every field, and
 messages without template

---
 src/mfast/field_comparator.h | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/mfast/field_comparator.h b/src/mfast/field_comparator.h
index 3749125..01d7c78 100644
--- a/src/mfast/field_comparator.h
+++ b/src/mfast/field_comparator.h
@@ -18,19 +18,27 @@ public:
     return lhs == rhs;
   }
 
-  static bool compare(const aggregate_cref lhs, const aggregate_cref rhs) {
+  static bool compare(const field_cref &lhs, const field_cref &rhs) {
+    if (lhs.instruction()->field_type() != rhs.instruction()->field_type() ||
+        lhs.present() != rhs.present())
+      return false;
+
+    if (lhs.absent())
+      return true;
+
+    field_comparator comparator(rhs);
+    return apply_accessor(comparator, lhs);
+  }
+
+  static bool compare(const aggregate_cref &lhs, const aggregate_cref &rhs) {
+    // the instruction of a nested message without template is null
+    if (lhs.instruction() == nullptr || rhs.instruction() == nullptr)
+      return lhs.instruction() == rhs.instruction();
+
     if (lhs.num_fields() == rhs.num_fields()) {
       for (std::size_t i = 0; i < lhs.num_fields(); ++i) {
-        if (lhs.instruction()->field_type() !=
-                rhs.instruction()->field_type() ||
-            lhs.present() != rhs.present())
+        if (!compare(lhs[i], rhs[i]))
           return false;
-
-        if (lhs.present()) {
-          field_comparator comparator(rhs[i]);
-          if (!apply_accessor(comparator, lhs[i]))
-            return false;
-        }
       }
       return true;
     }
@@ -38,6 +46,8 @@ public:
   }
 
   bool visit(const aggregate_cref &lhs, int) const {
+    if (rhs_.instruction()->field_type() == field_type_templateref)
+      return compare(lhs, nested_message_cref(rhs_));
     return compare(lhs, static_cast<aggregate_cref>(rhs_));
   }
 
@@ -60,11 +70,7 @@ inline bool operator==(const aggregate_cref &lhs, const aggregate_cref &rhs) {
 }
 
 inline bool operator==(const field_cref &lhs, const field_cref &rhs) {
-  if (lhs.instruction()->field_type() != rhs.instruction()->field_type())
-    return false;
-
-  detail::field_comparator comparator(rhs);
-  return apply_accessor(comparator, lhs);
+  return detail::field_comparator::compare(lhs, rhs);
 }
 
 using namespace std::rel_ops;
-- 
2.43.0


From b4c45b93955702bf52383795e3f495efe1abf0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:16 +0000
Subject: [PATCH 33/83] fix: copying a message without template

---
 src/mfast/composite_type.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mfast/composite_type.h b/src/mfast/composite_type.h
index 1fc5d76..216ec0c 100644
--- a/src/mfast/composite_type.h
+++ b/src/mfast/composite_type.h
@@ -173,8 +173,9 @@ inline composite_type<CRef>::composite_type(const CRef &other,
 template <typename CRef>
 inline composite_type<CRef>::composite_type(const composite_type &other)
     : alloc_(other.alloc_), instruction_(other.instruction_) {
-  this->instruction()->copy_construct_value(other.my_storage_, my_storage_,
-                                            alloc_, nullptr);
+  if (instruction_)
+    instruction_->copy_construct_value(other.my_storage_, my_storage_, alloc_,
+                                       nullptr);
 }
 
 template <typename CRef>
-- 
2.43.0


From fd8db32e9d35cc7f0721748e177626c1c43f88d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:54 +0000
Subject: [PATCH 34/83] fix: assign sequence elements as elements

---
 src/mfast/aggregate_ref.h | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/mfast/aggregate_ref.h b/src/mfast/aggregate_ref.h
index 9d03c43..5e4d3b1 100644
--- a/src/mfast/aggregate_ref.h
+++ b/src/mfast/aggregate_ref.h
@@ -355,17 +355,11 @@ void make_aggregate_mref<ConstRef>::as(const ConstRef &other) const {
   value_storage *new_content = reinterpret_cast<value_storage *>(buf + sz);
   // the first chuck for storing the original content
   std::memcpy(orig_content, this->storage_array_, sz);
-  value_storage tmp_storage;
-
-  // the second chunk for construct the new aggregate value
-
-  value_storage other_storage;
-  other_storage.of_group.own_content_ = false;
-  other_storage.of_group.content_ = const_cast<value_storage *>(
-      aggregate_cref_core_access::storage_of(other));
-
-  this->instruction()->copy_construct_value(other_storage, tmp_storage,
-                                            this->alloc_, new_content);
+  // the second chunk for construct the new aggregate value; the instruction may
+  // be the one of a sequence and this aggregate one of its elements
+  this->instruction()->copy_group_subfields(
+      aggregate_cref_core_access::storage_of(other), new_content,
+      this->alloc_);
 
   // copy the newly construct aggregate value to the old memory chunk
   std::memcpy(const_cast<value_storage *>(this->storage_array_), new_content,
-- 
2.43.0


From 998da111b646841222bce636ce7d6bff4ef36507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:35 +0000
Subject: [PATCH 35/83] fix: clear() empties mandatory sequences

---
 src/mfast/instructions/sequence_instruction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfast/instructions/sequence_instruction.cpp b/src/mfast/instructions/sequence_instruction.cpp
index afda1d3..6ee7c47 100644
--- a/src/mfast/instructions/sequence_instruction.cpp
+++ b/src/mfast/instructions/sequence_instruction.cpp
@@ -22,6 +22,7 @@ sequence_field_instruction::sequence_field_instruction(
       sequence_length_instruction_(sequence_length_instruction),
       element_instruction_(element_instruction) {
   field_type_ = field_type_sequence;
+  is_array_ = true;
   has_pmap_bit_ = sequence_length_instruction
                       ? sequence_length_instruction->pmap_size()
                       : 0;
-- 
2.43.0


From b8d674fb94753265b75ee9f70d41782ca1683fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:09 +0000
Subject: [PATCH 36/83] fix: the distance between two sequence iterators

---
 src/mfast/sequence_ref.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mfast/sequence_ref.h b/src/mfast/sequence_ref.h
index f4eafe2..b2660ec 100644
--- a/src/mfast/sequence_ref.h
+++ b/src/mfast/sequence_ref.h
@@ -119,9 +119,10 @@ private:
 
   void increment() { advance(1); }
   void decrement() { advance(-1); }
-  int distance_to(sequence_iterator const &other) const {
+  std::ptrdiff_t distance_to(sequence_iterator const &other) const {
     return (other.content_storage() - this->content_storage()) /
-           this->element_group_content_byte_count();
+           static_cast<std::ptrdiff_t>(
+               this->element_group_content_byte_count());
   }
 };
 
-- 
2.43.0


From e64952a804c9d0f7a32ac446683a83f9c5bfd38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:47 +0000
Subject: [PATCH 37/83] fix: copy no more than the elements of a vector

---
 src/mfast/instructions/string_instructions.cpp     | 6 ++++--
 src/mfast/instructions/vector_instruction_base.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mfast/instructions/string_instructions.cpp b/src/mfast/instructions/string_instructions.cpp
index 334dfda..18d89a0 100644
--- a/src/mfast/instructions/string_instructions.cpp
+++ b/src/mfast/instructions/string_instructions.cpp
@@ -49,8 +49,10 @@ void ascii_field_instruction::copy_construct_value(const value_storage &src,
     dest.of_array.content_ = nullptr;
     dest.of_array.capacity_in_bytes_ =
         alloc->reallocate(dest.of_array.content_, 0, len * element_size_);
-    std::memcpy(dest.of_array.content_, src.of_array.content_,
-                len * element_size_);
+    // len is one more than the number of characters
+    if (len > 1)
+      std::memcpy(dest.of_array.content_, src.of_array.content_,
+                  (len - 1) * element_size_);
   } else {
     dest.of_array.content_ = src.of_array.content_;
     dest.of_array.capacity_in_bytes_ = 0;
diff --git a/src/mfast/instructions/vector_instruction_base.cpp b/src/mfast/instructions/vector_instruction_base.cpp
index 9c752ca..cd9a001 100644
--- a/src/mfast/instructions/vector_instruction_base.cpp
+++ b/src/mfast/instructions/vector_instruction_base.cpp
@@ -30,8 +30,10 @@ void vector_field_instruction_base::copy_construct_value(
     dest.of_array.content_ = nullptr;
     dest.of_array.capacity_in_bytes_ = alloc->reallocate(
         dest.of_array.content_, 0, src.of_array.len_ * element_size_);
-    std::memcpy(dest.of_array.content_, src.of_array.content_,
-                src.of_array.len_ * element_size_);
+    // len_ is one more than the number of elements
+    if (src.of_array.len_ > 1)
+      std::memcpy(dest.of_array.content_, src.of_array.content_,
+                  (src.of_array.len_ - 1) * element_size_);
   } else {
     dest.of_array.capacity_in_bytes_ = 0;
     dest.of_array.content_ = nullptr;
-- 
2.43.0


From 14828a281b9d1a1628423db4641ed3e8e2bcaaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:02 +0000
Subject: [PATCH 38/83] fix: reallocating to a smaller size in an arena

---
 src/mfast/arena_allocator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/arena_allocator.cpp b/src/mfast/arena_allocator.cpp
index 6dac8f6..984efcd 100644
--- a/src/mfast/arena_allocator.cpp
+++ b/src/mfast/arena_allocator.cpp
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #include "arena_allocator.h"
 #include "allocator_utils.h"
+#include <algorithm>
 #include <cstring>
 #include <cstdlib>
 #include <new>
@@ -85,7 +86,7 @@ std::size_t arena_allocator::reallocate(void *&pointer, std::size_t old_size,
   new_size = align(static_cast<std::size_t>(new_size) * 2, 64);
   void *old_pointer = pointer;
   pointer = this->allocate(new_size);
-  std::memcpy(pointer, old_pointer, old_size);
+  std::memcpy(pointer, old_pointer, (std::min)(old_size, new_size));
   return new_size;
 }
 
-- 
2.43.0


From feddfb421d7148c85f3f53d8890ad56b848aa6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:02 +0000
Subject: [PATCH 39/83] fix: an arena uses the memory of all its chunks again
 after a reset

---
 src/mfast/arena_allocator.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/mfast/arena_allocator.cpp b/src/mfast/arena_allocator.cpp
index 984efcd..70babd7 100644
--- a/src/mfast/arena_allocator.cpp
+++ b/src/mfast/arena_allocator.cpp
@@ -40,14 +40,22 @@ void *arena_allocator::allocate(std::size_t n) {
   if (current_list_head_->size() < n) {
     // current block does not have enough memory
 
-    if (free_list_head_ && free_list_head_->size() >= n) {
-      // The head of free_list is big enough,
-      // move the head of free_listto become the head of current_list
-      memory_chunk_base *tmp = free_list_head_;
-      free_list_head_ = static_cast<memory_chunk *>(free_list_head_->next_);
+    // look for the first chunk in the free_list which is big enough
+    memory_chunk *prev = nullptr, *chunk = free_list_head_;
+    while (chunk && chunk->size() < n) {
+      prev = chunk;
+      chunk = static_cast<memory_chunk *>(chunk->next_);
+    }
+
+    if (chunk) {
+      // move the chunk to become the head of current_list
+      if (prev)
+        prev->next_ = chunk->next_;
+      else
+        free_list_head_ = static_cast<memory_chunk *>(chunk->next_);
 
-      tmp->next_ = current_list_head_;
-      current_list_head_ = static_cast<memory_chunk *>(tmp);
+      chunk->next_ = current_list_head_;
+      current_list_head_ = chunk;
     } else {
       if (current_list_head_->size() >= 64) {
         // if current block is have plenty of free space, move it to the
@@ -91,7 +99,12 @@ std::size_t arena_allocator::reallocate(void *&pointer, std::size_t old_size,
 }
 
 bool arena_allocator::reset() {
-  // first, find the tail of current_list
+  // chunks in the free_list may have been used in part before they were moved
+  // there
+  for (memory_chunk_base *chunk = free_list_head_; chunk; chunk = chunk->next_)
+    chunk->start_ = reinterpret_cast<char *>(chunk->user_memory);
+
+  // then, find the tail of current_list
   memory_chunk *tmp = current_list_head_;
   while (tmp->next_ != nullptr) {
     tmp = static_cast<memory_chunk *>(tmp->next_);
-- 
2.43.0


From 4cf6aa73ce2ece97b6c20f8c449ca658a1998c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:05 +0000
Subject: [PATCH 40/83] fix: two digits for every byte of a byte vector in JSON

---
 src/mfast/json/json_encode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index b563ee3..6575ba8 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -101,13 +101,13 @@ public:
       // json doesn't have byte vector, treat it as hex string now
       strm_ << separator_ << "\"";
       boost::io::ios_flags_saver ifs(strm_);
-      strm_ << std::hex << std::setfill('0') << std::setw(2);
+      strm_ << std::hex << std::setfill('0');
 
       for (std::size_t i = 0; i < ref.size(); ++i) {
         // if the size is 16, we treat it as a UUID
         if (ref.size() == 16 && (i == 4 || i == 6 || i == 8 || i == 10))
           strm_ << '-';
-        strm_ << (0xFF & (int)ref[i]);
+        strm_ << std::setw(2) << (0xFF & (int)ref[i]);
       }
       strm_ << "\"" << std::setfill(' ');
     }
-- 
2.43.0


From 7fe3f4d4e3f4075398cf4a558028e5ec0719b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:05 +0000
Subject: [PATCH 41/83] fix: write all the characters of a string to JSON

---
 src/mfast/json/json_encode.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index 6575ba8..0a36fb6 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -9,6 +9,7 @@
 #include "../nested_message_ref.h"
 #include <boost/io/ios_state.hpp>
 #include <cstdio>
+#include <cstring>
 #ifdef _MSC_VER // someday someone at microsoft will read the C++11 standard.
 #define snprintf _snprintf
 #else // _MSCVER
@@ -25,11 +26,10 @@ struct quoted_string {
   const char *str_;
 };
 
-std::ostream &operator<<(std::ostream &os, quoted_string str) {
+std::ostream &put_quoted(std::ostream &os, const char *ptr, const char *last) {
   os.put('"');
-  const char *ptr = str.str_;
-  char c;
-  while ((c = *ptr++) != '\0') {
+  while (ptr != last) {
+    char c = *ptr++;
     // According to ECMA-404, the control charanter (U+0000 to U+001F) must be
     // escaped
     if ((c & 0xE0) == 0) {
@@ -54,6 +54,10 @@ std::ostream &operator<<(std::ostream &os, quoted_string str) {
   return os;
 }
 
+std::ostream &operator<<(std::ostream &os, quoted_string str) {
+  return put_quoted(os, str.str_, str.str_ + std::strlen(str.str_));
+}
+
 class json_visitor {
 protected:
   std::ostream &strm_;
@@ -86,7 +90,9 @@ public:
   }
 
   template <typename Char> void visit(const mfast::string_cref<Char> &ref) {
-    strm_ << separator_ << quoted_string(ref.c_str());
+    strm_ << separator_;
+    // the characters may contain NUL and need not be NUL terminated
+    put_quoted(strm_, ref.data(), ref.data() + ref.size());
   }
 
   void visit(const mfast::byte_vector_cref &ref) {
-- 
2.43.0


From ddbf4dfbea04251749d4ae1be8c4402c5e82e80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:05 +0000
Subject: [PATCH 42/83] fix: an aggregate without its nested message is an
 empty JSON object

---
 src/mfast/json/json_encode.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index 0a36fb6..cbdf238 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -137,6 +137,8 @@ public:
       if (f0.instruction()->field_type() == mfast::field_type_templateref) {
         if (f0.present())
           this->visit(mfast::nested_message_cref(f0), 0);
+        else
+          strm_ << separator_ << "{}";
         return;
       }
     }
@@ -201,6 +203,8 @@ public:
       if (f0.instruction()->field_type() == mfast::field_type_templateref) {
         if (f0.present())
           this->visit(mfast::nested_message_cref(f0), 0);
+        else
+          strm_ << separator_ << "{}";
         return;
       }
     }
-- 
2.43.0


From 443c2e0edd9dfad3b0c3742af8e375b1529a4e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:05 +0000
Subject: [PATCH 43/83] fix: decode all the elements of an integer vector from
 JSON

---
 src/mfast/json/json_decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 07a1db8..fe58b5a 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -408,7 +408,7 @@ struct decode_visitor {
     do {
       ref.resize(i + 1);
 
-      strm_ >> ref[i] >> std::skipws >> c;
+      strm_ >> ref[i++] >> std::skipws >> c;
 
       if (!strm_.good())
         BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect integer"));
-- 
2.43.0


From ccfd8f34b340ed5151d82043f6798bf231192dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:05 +0000
Subject: [PATCH 44/83] fix: reject negative JSON numbers for unsigned fields

---
 src/mfast/json/json_decode.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index fe58b5a..46c5e88 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -306,10 +306,18 @@ struct decode_visitor {
   decode_visitor(std::istream &strm, unsigned json_object_tag_mask)
       : strm_(strm), json_object_tag_mask_(json_object_tag_mask) {}
 
+  // the stream would wrap negative values of unsigned types around
+  template <typename T> void get_integer(T &value) {
+    strm_ >> std::ws;
+    if (!std::is_signed<T>::value && strm_.peek() == '-')
+      strm_.setstate(std::ios::failbit);
+    strm_ >> value;
+  }
+
   template <typename NumericTypeMref> void visit(const NumericTypeMref &ref) {
     typedef typename NumericTypeMref::value_type value_type;
     value_type value;
-    if (strm_ >> value, strm_.good())
+    if (get_integer(value), strm_.good())
       ref.as(value);
     else
       BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect number value"));
@@ -408,7 +416,8 @@ struct decode_visitor {
     do {
       ref.resize(i + 1);
 
-      strm_ >> ref[i++] >> std::skipws >> c;
+      get_integer(ref[i++]);
+      strm_ >> std::skipws >> c;
 
       if (!strm_.good())
         BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect integer"));
-- 
2.43.0


From 657f1dd64b4bd963aadf31ffc7e16de2cd9f417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:05 +0000
Subject: [PATCH 45/83] fix: a JSON member name that contains NUL is unknown

---
 src/mfast/json/json_decode.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 46c5e88..57bd2b7 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -480,7 +480,9 @@ bool decode_visitor::visit_impl(const mfast::aggregate_mref &ref) {
         BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect :", c));
       }
 
-      int index = ref.field_index_with_name(key.c_str());
+      int index = key.find('\0') == std::string::npos
+                      ? ref.field_index_with_name(key.c_str())
+                      : -1;
       if (index != -1) {
         // we need to check if the value is null
         strm_ >> std::ws;
-- 
2.43.0


From 833f130247ccf72cddf847844ef8896dd5fa751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:05 +0000
Subject: [PATCH 46/83] fix: skip JSON numbers of any magnitude

---
 src/mfast/json/json_decode.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 57bd2b7..42872ad 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -272,10 +272,11 @@ bool skip_value(std::istream &strm) {
     if (strcmp(rest, "alse") == 0)
       return true;
   } else if (c1 == '-' || isdigit(c1)) {
-    // skip number
-    strm.putback(c1);
-    double d;
-    strm >> d;
+    // skip number, whatever its magnitude
+    int c;
+    while (isdigit(c = strm.peek()) || c == '.' || c == 'e' || c == 'E' ||
+           c == '+' || c == '-')
+      strm.get();
     return strm.good();
   }
   strm.setstate(std::ios::failbit);
-- 
2.43.0


From 1edbcd9e4a4caed820696dcaf38700a3d85af991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:05 +0000
Subject: [PATCH 47/83] fix: reject a JSON array which is cut short

---
 src/mfast/json/json_decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 42872ad..e123489 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -541,7 +541,7 @@ void decode_visitor::visit(const mfast::sequence_mref &ref, int) {
     strm_ >> std::skipws >> c;
 
     if (!strm_.good())
-      return;
+      BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect ]"));
   } while (c == ',');
 
   if (c == ']')
-- 
2.43.0


From a7d48a47bc0354fe9a4cc2ad141579e57cffac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:05 +0000
Subject: [PATCH 48/83] fix: do not read an uninitialized character

---
 src/mfast/json/json_decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index e123489..fd7349b 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -326,7 +326,7 @@ struct decode_visitor {
 
   void visit(const enum_mref &ref) {
     if (ref.is_boolean()) {
-      char c1;
+      char c1 = 0;
       char rest[5];
 
       strm_ >> std::skipws >> c1;
-- 
2.43.0


From df3e2b5d4e62ea5acbdc571cd69949b70263e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:40 +0000
Subject: [PATCH 49/83] fix: read back decimals which are printed with many
 zeros

---
 src/mfast/value_storage.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/mfast/value_storage.cpp b/src/mfast/value_storage.cpp
index 8268758..4a9ecba 100644
--- a/src/mfast/value_storage.cpp
+++ b/src/mfast/value_storage.cpp
@@ -50,11 +50,18 @@ std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
     c = sbuf->snextc();
   }
 
+  // once the mantissa cannot hold any further digit, only zeros may follow
+  bool full = false;
+
   for (; c >= '0' && c <= '9'; c = sbuf->snextc()) {
     has_digits = true;
-    if (!append_digit(mantissa, negative, c - '0')) {
-      strm.setstate(std::ios_base::failbit);
-      return strm;
+    if (full || !append_digit(mantissa, negative, c - '0')) {
+      full = true;
+      exponent += 1;
+      if (c != '0') {
+        strm.setstate(std::ios_base::failbit);
+        return strm;
+      }
     }
   }
 
@@ -65,11 +72,14 @@ std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
 
   if (c == '.') {
     for (c = sbuf->snextc(); c >= '0' && c <= '9'; c = sbuf->snextc()) {
-      if (!append_digit(mantissa, negative, c - '0')) {
-        strm.setstate(std::ios_base::failbit);
-        return strm;
-      }
-      exponent -= 1;
+      if (full || !append_digit(mantissa, negative, c - '0')) {
+        full = true;
+        if (c != '0') {
+          strm.setstate(std::ios_base::failbit);
+          return strm;
+        }
+      } else
+        exponent -= 1;
     }
   }
 
-- 
2.43.0


From c4b1ed39b7e7ab1f82d0f53f00a9a135709acfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:40 +0000
Subject: [PATCH 50/83] fix: print a zero mantissa as one digit

---
 src/mfast/value_storage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/value_storage.cpp b/src/mfast/value_storage.cpp
index 4a9ecba..4806a88 100644
--- a/src/mfast/value_storage.cpp
+++ b/src/mfast/value_storage.cpp
@@ -133,7 +133,8 @@ std::ostream &operator<<(std::ostream &os,
 
   if (exponent >= 0) {
     os << mantissa;
-    std::fill_n(std::ostream_iterator<char>(os), exponent, '0');
+    if (mantissa != 0)
+      std::fill_n(std::ostream_iterator<char>(os), exponent, '0');
   } else if (exponent < 0) {
     char buf[128];
 
-- 
2.43.0


From d8314951eb2618f027044a46d8c454aadfbfbcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:45 +0000
Subject: [PATCH 51/83] fix: a JSON object replaces the content of a byte
 vector

---
 src/mfast/json/json_decode.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index fd7349b..517d243 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -387,6 +387,7 @@ struct decode_visitor {
       char c = 0;
       strm_ >> std::skipws >> c;
       if (strm_.good() && c == '{') {
+        ref.resize(0);
         ref.push_back(c);
         if (skip_matching(strm_, c, &ref)) {
           return;
-- 
2.43.0


From 86459c05252def0f74f23e4f3655de55e395ce59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:45 +0000
Subject: [PATCH 52/83] fix: an empty JSON array is an empty, not an absent
 sequence or vector

---
 src/mfast/json/json_decode.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 517d243..b27a5e5 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -409,6 +409,7 @@ struct decode_visitor {
 
   template <typename IntType> void visit(int_vector_mref<IntType> &ref) {
     ref.clear();
+    ref.resize(0); // an empty array is present
     if (!parse_array_preamble(strm_))
       return;
 
@@ -525,6 +526,7 @@ bool decode_visitor::visit_impl(const mfast::aggregate_mref &ref) {
 
 void decode_visitor::visit(const mfast::sequence_mref &ref, int) {
   ref.clear();
+  ref.resize(0); // an empty array is present
   if (!parse_array_preamble(strm_))
     return;
 
-- 
2.43.0


From cae697f5732d2f8622e823dca71643643aa454a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:08 +0000
Subject: [PATCH 53/83] fix: separate JSON objects in a sequence of byte
 vectors

---
 src/mfast/json/json_encode.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index cbdf238..ed83446 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -101,6 +101,7 @@ public:
       // json encoded object already, just write it as it is without any
       // processing.
 
+      strm_ << separator_;
       strm_.rdbuf()->sputn(reinterpret_cast<const char *>(ref.data()),
                            ref.size());
     } else {
-- 
2.43.0


From 9b97fbe4f45f2e4c6576e6fbfbec6a05a156345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:37 +0000
Subject: [PATCH 54/83] fix: an enumeration value without a name does not read
 past the names

---
 src/mfast/instructions/enum_instruction.h | 2 +-
 src/mfast/json/json_encode.cpp            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/instructions/enum_instruction.h b/src/mfast/instructions/enum_instruction.h
index 44535de..2ab3818 100644
--- a/src/mfast/instructions/enum_instruction.h
+++ b/src/mfast/instructions/enum_instruction.h
@@ -40,7 +40,7 @@ public:
 
   const char *element_name(uint64_t v) const {
     if (element_values_ == nullptr)
-      return elements_[v];
+      return v < num_elements_ ? elements_[v] : nullptr;
     const uint64_t *it =
         std::lower_bound(element_values_, element_values_ + num_elements_, v);
     if (it != element_values_ + num_elements_ && *it == v)
diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index ed83446..ee8a0c2 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -84,7 +84,7 @@ public:
 
   void visit(const enum_cref &ref) {
     if (ref.is_boolean())
-      strm_ << separator_ << ref.value_name();
+      strm_ << separator_ << (ref.value() ? "true" : "false");
     else
       strm_ << separator_ << ref.value();
   }
-- 
2.43.0


From 97b6b9b159ea01ea129aff13311a01a22d36a582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:24 +0000
Subject: [PATCH 55/83] fix: a boolean field has no initial value unless one is
 given

---
 src/mfast/boolean_ref.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mfast/boolean_ref.cpp b/src/mfast/boolean_ref.cpp
index 7d27912..9e1309c 100644
--- a/src/mfast/boolean_ref.cpp
+++ b/src/mfast/boolean_ref.cpp
@@ -11,8 +11,9 @@ static const char *boolean_elements[] = {"false", "true"};
 
 const boolean::instruction_type *boolean::instruction() {
   static const boolean_cref::instruction_type the_instruction(
-      operator_none, presence_mandatory, 0, "boolean", "", nullptr, 0,
-      boolean_elements, nullptr, 2, nullptr, "mfast");
+      operator_none, presence_mandatory, 0, "boolean", "", nullptr,
+      int_value_storage<uint64_t>(), boolean_elements, nullptr, 2, nullptr,
+      "mfast");
 
   return &the_instruction;
 }
-- 
2.43.0


From 314b961052b4e982796e38bff15fc22c37daa28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:12 +0000
Subject: [PATCH 56/83] fix: initial values of sets beyond 31 elements, unknown
 names and numbers

---
 src/mfast/xml_parser/field_builder.cpp | 45 ++++++++++++--------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 4770d01..0ea6220 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -812,37 +812,34 @@ void field_builder::visit(const set_field_instruction *inst, void *)
       if (name_attr == nullptr)
         name_attr = xml_elt->Attribute("name");
       if (name_attr != nullptr)
-      {
-        if (init_value_str && std::strcmp(name_attr, init_value_str) == 0)
-          fop.initial_value_.set<uint64_t>(1 << names.size());
         names.push_back(string_dup(name_attr, alloc()));
-      }
     }
     num_elements = names.size();
     set_element_names = static_cast<const char**>
       (alloc().allocate(names.size() * sizeof(const char*)));
     std::copy(names.begin(), names.end(), set_element_names);
   }
-  else
-    if (init_value_str)
-    {
-      boost::optional<std::uint64_t> value_int;
-      try
-      {
-        value_int = std::stoul(init_value_str);
-      } catch (...) {}
-      if (value_int)
-        fop.initial_value_.set<uint64_t>(*value_int);
-      else
-      {
-        for (auto i = 0ul; i < num_elements; ++i)
-          if (std::strcmp(set_element_names[i], init_value_str) == 0)
-          {
-            fop.initial_value_.set<uint64_t>(1 << i);
-            break;
-          }
-      }
-    }
+
+  if (init_value_str)
+  {
+    // the initial value is either the name of an element or the number that
+    // stands for any combination of them
+    uint64_t init_value = 0;
+    auto i = 0ul;
+    while (i < num_elements &&
+           std::strcmp(set_element_names[i], init_value_str) != 0)
+      ++i;
+    if (i < num_elements && i < 64)
+      init_value = uint64_t(1) << i;
+    else if (!boost::conversion::try_lexical_convert(init_value_str,
+                                                     init_value))
+      BOOST_THROW_EXCEPTION(
+          fast_static_error("Unrecognized set initial value : ")
+          << value_info(init_value_str));
+
+    fop.initial_value_ = value_storage(0);
+    fop.initial_value_.set<uint64_t>(init_value);
+  }
 
   auto instruction = new (alloc()) set_field_instruction(
       fop.op_, get_presence(inst), get_id(inst), get_name(alloc()),
-- 
2.43.0


From 1e981f719b277fc37680f55110f830a011f0adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:12 +0000
Subject: [PATCH 57/83] fix: numeric initial values of enumerations without
 explicit values

---
 src/mfast/xml_parser/field_builder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 0ea6220..f6232a4 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -536,7 +536,8 @@ bool parse_enum_value(const char **enum_element_names,
     // FAST 1.2 does not cleary specify what a default enum value refers to,
     // search for a match in either name or value/deduce_value
     if (std::strcmp(enum_element_names[i], value_name) == 0 ||
-       (value_int.has_value() && enum_element_values[i] == *value_int)) {
+       (value_int.has_value() &&
+        (enum_element_values ? enum_element_values[i] : i) == *value_int)) {
           if (enum_element_values)
             result = enum_element_values[i];
           else
-- 
2.43.0


From 3d04d5859278c62b40a2257162a4ca13944522f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:20 +0000
Subject: [PATCH 58/83] fix: alternatives of the fields of a view

---
 src/mfast/view_iterator.cpp | 33 ++++++++++++++++++++++++++-------
 src/mfast/view_iterator.h   |  6 +++---
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/mfast/view_iterator.cpp b/src/mfast/view_iterator.cpp
index af51e2d..b9208f1 100644
--- a/src/mfast/view_iterator.cpp
+++ b/src/mfast/view_iterator.cpp
@@ -10,11 +10,13 @@
 
 #include "view_iterator.h"
 #include "sequence_ref.h"
+#include <algorithm>
 
 namespace mfast {
-bool view_iterator_helper::access_field(view_iterator *itr) {
-  if (itr->view_info_->prefix_diff() < itr->non_leaves_.size())
-    itr->non_leaves_.resize(itr->view_info_->prefix_diff());
+bool view_iterator_helper::access_field(view_iterator *itr,
+                                        std::size_t prefix_diff) {
+  if (prefix_diff < itr->non_leaves_.size())
+    itr->non_leaves_.resize(prefix_diff);
 
   while (itr->non_leaves_.back() == aggregate_cref::iterator()) {
     // if the field is nesting inside a sequence, a null
@@ -59,16 +61,33 @@ bool view_iterator_helper::access_field(view_iterator *itr) {
   return itr->leaf_.present();
 }
 
-void view_iterator_helper::increment(view_iterator *itr) {
-  ++itr->view_info_;
+// Visit the alternatives of a field until one of them is present.
+// The parameter prefix_diff tells how much the current alternative has in
+// common with what has been accessed last.
+void view_iterator_helper::select_field(view_iterator *itr,
+                                        std::size_t prefix_diff) {
   if (itr->view_info_->prop == 0)
     return;
 
-  while (!access_field(itr) && itr->view_info_->cont())
+  while (!access_field(itr, prefix_diff) && itr->view_info_->cont()) {
     ++itr->view_info_;
+    prefix_diff = itr->view_info_->prefix_diff();
+  }
+}
 
-  while (itr->view_info_->cont())
+void view_iterator_helper::increment(view_iterator *itr) {
+  // The prefix_diff of each alternative is relative to its predecessor, which
+  // is not accessed when it is skipped.
+  std::size_t prefix_diff = itr->non_leaves_.size();
+  bool cont;
+  do {
+    cont = itr->view_info_->cont();
     ++itr->view_info_;
+    prefix_diff = (std::min<std::size_t>)(prefix_diff,
+                                          itr->view_info_->prefix_diff());
+  } while (cont);
+
+  select_field(itr, prefix_diff);
 }
 
 } /* mfast */
diff --git a/src/mfast/view_iterator.h b/src/mfast/view_iterator.h
index a12b18e..58851df 100644
--- a/src/mfast/view_iterator.h
+++ b/src/mfast/view_iterator.h
@@ -39,7 +39,8 @@ class view_iterator;
 
 class MFAST_EXPORT view_iterator_helper {
 public:
-  static bool access_field(view_iterator *itr);
+  static bool access_field(view_iterator *itr, std::size_t prefix_diff);
+  static void select_field(view_iterator *itr, std::size_t prefix_diff);
   static void increment(view_iterator *itr);
 };
 
@@ -54,7 +55,7 @@ public:
       : view_info_(view_info) {
     non_leaves_.reserve(max_depth);
     non_leaves_.push_back(ref.begin());
-    access_field();
+    view_iterator_helper::select_field(this, 1);
   }
 
   view_iterator(const field_view_info *view_info) : view_info_(view_info) {}
@@ -64,7 +65,6 @@ private:
   friend class view_iterator_helper;
 
   field_cref dereference() const { return leaf_; }
-  bool access_field() { return view_iterator_helper::access_field(this); }
   void increment() { return view_iterator_helper::increment(this); }
   bool equal(const view_iterator &other) const {
     return this->view_info_ == other.view_info_;
-- 
2.43.0


From 88f8dda9776d899901eb51e7bf3f2e7b7f6b0519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:17 +0000
Subject: [PATCH 59/83] fix: a view of a missing or of a whole sequence element

---
 src/mfast/view_iterator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mfast/view_iterator.cpp b/src/mfast/view_iterator.cpp
index b9208f1..a8037a3 100644
--- a/src/mfast/view_iterator.cpp
+++ b/src/mfast/view_iterator.cpp
@@ -49,8 +49,15 @@ bool view_iterator_helper::access_field(view_iterator *itr,
           index = itr->view_info_->nest_indices[++nest_level];
           if (index == -1) {
             itr->leaf_.refers_to(*itr->non_leaves_.back());
+            finished = true;
           }
         } else {
+          // there is no such element
+          static const int32_field_instruction absent_instruction(
+              operator_none, presence_optional, 0, "", "", nullptr,
+              int_value_storage<int32_t>());
+          itr->leaf_.refers_to(
+              field_cref(&detail::null_storage, &absent_instruction));
           finished = true;
         }
       } else {
-- 
2.43.0


From b73c8f69dc200f52a8e89fa02aec5d626a4cd518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:17 +0000
Subject: [PATCH 60/83] fix: view references which repeat, include or lack
 others, and invalid indices

---
 src/mfast/xml_parser/view_info_builder.cpp | 26 ++++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/mfast/xml_parser/view_info_builder.cpp b/src/mfast/xml_parser/view_info_builder.cpp
index ee59cce..1d33203 100644
--- a/src/mfast/xml_parser/view_info_builder.cpp
+++ b/src/mfast/xml_parser/view_info_builder.cpp
@@ -181,8 +181,11 @@ void view_info_builder::build_field_view(const tinyxml2::XMLElement &element,
         new_pos = ref_name.find_first_of(']', pos);
         if (new_pos != std::string::npos) {
           try {
-            sequence_indeces.push_back(boost::lexical_cast<unsigned>(
-                ref_name.substr(pos, new_pos - pos)));
+            int index = boost::lexical_cast<int>(
+                ref_name.substr(pos, new_pos - pos));
+            if (index < 0)
+              throw boost::bad_lexical_cast();
+            sequence_indeces.push_back(index);
             pos = new_pos;
           } catch (boost::bad_lexical_cast &) {
             BOOST_THROW_EXCEPTION(
@@ -208,7 +211,7 @@ void view_info_builder::build_field_view(const tinyxml2::XMLElement &element,
     // replace every instance -2 with the indeces in []
     typedef field_view_info::nest_index_t nest_index_t;
     nest_index_t *nest_indices = static_cast<nest_index_t *>(
-        alloc_.allocate(sizeof(nest_index_t) * field_indeces.size() + 1));
+        alloc_.allocate(sizeof(nest_index_t) * (field_indeces.size() + 1)));
 
     unsigned i = 0, j = 0;
     for (i = 0; i < field_indeces.size(); ++i) {
@@ -233,10 +236,14 @@ void view_info_builder::build_field_view(const tinyxml2::XMLElement &element,
                                    static_cast<unsigned>(field_indeces.size()));
     result.prop += 1;
     if (fields.size()) {
-      result.prop += std::mismatch(nest_indices, nest_indices + i,
-                                   fields.back().nest_indices)
-                         .first -
-                     nest_indices;
+      // a reference which is completely included in the previous one shares all
+      // but its last index with it
+      result.prop += std::min<std::ptrdiff_t>(
+          std::mismatch(nest_indices, nest_indices + i,
+                        fields.back().nest_indices)
+                  .first -
+              nest_indices,
+          i - 1);
     }
     fields.push_back(result);
   }
@@ -266,12 +273,17 @@ view_info_builder::build(const tinyxml2::XMLElement &element,
   const tinyxml2::XMLElement *child = element.FirstChildElement();
   while (child != nullptr) {
     if (std::strcmp(child->Name(), "field") == 0) {
+      const std::size_t num_references = fields.size();
       const tinyxml2::XMLElement *grandchild = child->FirstChildElement();
       while (grandchild != nullptr) {
         build_field_view(*grandchild, result.max_depth_, fields);
         grandchild = grandchild->NextSiblingElement();
       }
 
+      if (fields.size() == num_references)
+        BOOST_THROW_EXCEPTION(
+            fast_static_error("A field of a view must have a reference"));
+
       fields.back().prop &= ~field_view_info::CONTINUE_BIT;
     }
     child = child->NextSiblingElement();
-- 
2.43.0


From 011c3447cd2a2683cf99a74bc4bb2852dd487293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:50 +0000
Subject: [PATCH 61/83] fix: operators, decimal parts and lengths inside the
 type of a field element

---
 src/mfast/xml_parser/field_builder.cpp | 36 +++++++++++++++++---------
 src/mfast/xml_parser/field_builder.h   |  3 +++
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index f6232a4..8059d17 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -147,6 +147,18 @@ field_builder::field_builder(field_builder_base *parent,
   name_ = name;
 }
 
+// The operator, the parts of a decimal and the length of a field are either in
+// the field element itself or in the element of its type.
+const XMLElement *field_builder::op_element() const {
+  return field_op::find_field_op_element(element_) ? &element_
+                                                   : content_element_;
+}
+
+const XMLElement *field_builder::find_child(const char *child_name) const {
+  const XMLElement *child = element_.FirstChildElement(child_name);
+  return child ? child : content_element_->FirstChildElement(child_name);
+}
+
 void field_builder::build() {
   const field_instruction *prototype =
       find_prototype(resolve_field_type(element_));
@@ -157,7 +169,7 @@ void field_builder::build() {
 
 template <typename IntType>
 void field_builder::build_integer(const int_field_instruction<IntType> *inst) {
-  field_op fop(inst, &element_, alloc());
+  field_op fop(inst, op_element(), alloc());
 
   field_instruction *instruction = new (alloc()) int_field_instruction<IntType>(
       fop.op_, get_presence(inst), get_id(inst), get_name(alloc()),
@@ -186,8 +198,8 @@ void field_builder::visit(const uint64_field_instruction *inst, void *) {
 void field_builder::visit(const decimal_field_instruction *inst, void *) {
   const mantissa_field_instruction *base_mantissa_instruction =
       inst->mantissa_instruction();
-  const XMLElement *mantissa_element = element_.FirstChildElement("mantissa");
-  const XMLElement *exponent_element = element_.FirstChildElement("exponent");
+  const XMLElement *mantissa_element = find_child("mantissa");
+  const XMLElement *exponent_element = find_child("exponent");
   field_instruction *instruction;
   if (base_mantissa_instruction || mantissa_element || exponent_element) {
 
@@ -219,7 +231,7 @@ void field_builder::visit(const decimal_field_instruction *inst, void *) {
         decimal_value_storage(exponent_op.initial_value_), parse_tag(inst));
   } else {
 
-    field_op decimal_op(inst, &element_, alloc());
+    field_op decimal_op(inst, op_element(), alloc());
 
     instruction = new (alloc()) decimal_field_instruction(
         decimal_op.op_, get_presence(inst), get_id(inst), get_name(alloc()),
@@ -231,7 +243,7 @@ void field_builder::visit(const decimal_field_instruction *inst, void *) {
 }
 
 void field_builder::visit(const ascii_field_instruction *inst, void *) {
-  field_op fop(inst, &element_, alloc());
+  field_op fop(inst, op_element(), alloc());
   field_instruction *instruction = new (alloc()) ascii_field_instruction(
       fop.op_, get_presence(inst), get_id(inst), get_name(alloc()),
       get_ns(inst, alloc()), fop.context_,
@@ -240,10 +252,10 @@ void field_builder::visit(const ascii_field_instruction *inst, void *) {
 }
 
 void field_builder::visit(const unicode_field_instruction *inst, void *) {
-  field_op fop(inst, &element_, alloc());
+  field_op fop(inst, op_element(), alloc());
 
   const XMLAttribute *length_attributes = nullptr;
-  const XMLElement *length_element = element_.FirstChildElement("length");
+  const XMLElement *length_element = find_child("length");
 
   if (length_element) {
     length_attributes = length_element->FirstAttribute();
@@ -261,10 +273,10 @@ void field_builder::visit(const unicode_field_instruction *inst, void *) {
 }
 
 void field_builder::visit(const byte_vector_field_instruction *inst, void *) {
-  field_op fop(inst, &element_, alloc());
+  field_op fop(inst, op_element(), alloc());
 
   const XMLAttribute *length_attributes = nullptr;
-  const XMLElement *length_element = element_.FirstChildElement("length");
+  const XMLElement *length_element = find_child("length");
 
   if (length_element) {
     length_attributes = length_element->FirstAttribute();
@@ -418,7 +430,7 @@ void field_builder::visit(const group_field_instruction *inst, void *) {
   auto instruction = new (alloc()) group_field_instruction(
       get_presence(inst), get_id(inst), get_name(alloc()),
       get_ns(inst, alloc()), get_dictionary(inst), subinstructions,
-      get_typeRef_name(element_), get_typeRef_ns(element_), inst->cpp_ns(),
+      get_typeRef_name(*content_element_), get_typeRef_ns(*content_element_), inst->cpp_ns(),
       parse_tag(inst));
 
   if (inst->subinstructions().size() == 0) {
@@ -488,7 +500,7 @@ void field_builder::visit(const sequence_field_instruction *inst, void *) {
       get_presence(inst), get_id(inst), get_name(alloc()),
       get_ns(inst, alloc()), get_dictionary(inst), subinstructions,
       element_instruction, ref_inst, get_length_instruction(inst),
-      get_typeRef_name(element_), get_typeRef_ns(element_), inst->cpp_ns(),
+      get_typeRef_name(*content_element_), get_typeRef_ns(*content_element_), inst->cpp_ns(),
       parse_tag(inst));
 
   parent_->add_instruction(instruction);
@@ -510,7 +522,7 @@ void field_builder::visit(const template_instruction *inst, void *) {
       id_ ? boost::lexical_cast<uint32_t>(id_) : 0, string_dup(name_, alloc()),
       string_dup(ns_, alloc()), string_dup(templateNs_, alloc()),
       string_dup(dictionary_, alloc()), build_subfields(), reset,
-      get_typeRef_name(element_), get_typeRef_ns(element_), inst->cpp_ns(),
+      get_typeRef_name(*content_element_), get_typeRef_ns(*content_element_), inst->cpp_ns(),
       parse_tag(inst));
 
   parent_->add_template(this->resolved_ns(), instruction);
diff --git a/src/mfast/xml_parser/field_builder.h b/src/mfast/xml_parser/field_builder.h
index d14e444..7a92a0b 100644
--- a/src/mfast/xml_parser/field_builder.h
+++ b/src/mfast/xml_parser/field_builder.h
@@ -96,6 +96,9 @@ protected:
   virtual void visit(const enum_field_instruction *, void *) override;
   virtual void visit(const set_field_instruction *, void *) override;
 
+  const XMLElement *op_element() const;
+  const XMLElement *find_child(const char *child_name) const;
+
   instructions_view_t build_subfields();
   const group_field_instruction *get_sole_templateref();
   const uint32_field_instruction *
-- 
2.43.0


From 3162d4779afcb11ac6db2afa9a2225b167dfd9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:50 +0000
Subject: [PATCH 62/83] fix: a group or sequence without fields

---
 src/mfast/xml_parser/field_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 8059d17..a9c959f 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -399,7 +399,7 @@ instructions_view_t field_builder::build_subfields() {
 
 const group_field_instruction *field_builder::get_sole_templateref() {
   const XMLElement *child = content_element_->FirstChildElement();
-  if (strcmp(child->Name(), "templateRef") == 0 &&
+  if (child && strcmp(child->Name(), "templateRef") == 0 &&
       child->NextSibling() == nullptr) {
     const char *target_name = child->Attribute("name", nullptr);
     if (target_name) {
-- 
2.43.0


From 445294f9e4d487c8a0432c7242f3acc7dd4f91dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:04 +0000
Subject: [PATCH 63/83] fix: refuse negative ids and negative initial values of
 unsigned integers

---
 src/mfast/xml_parser/fast_xml_attributes.h |  4 ++--
 src/mfast/xml_parser/field_builder.cpp     |  8 ++++----
 src/mfast/xml_parser/field_builder.h       |  2 +-
 src/mfast/xml_parser/field_op.h            |  4 ++--
 src/mfast/xml_parser/xml_util.h            | 10 ++++++++++
 5 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/mfast/xml_parser/fast_xml_attributes.h b/src/mfast/xml_parser/fast_xml_attributes.h
index 0d10407..19c6155 100644
--- a/src/mfast/xml_parser/fast_xml_attributes.h
+++ b/src/mfast/xml_parser/fast_xml_attributes.h
@@ -8,7 +8,7 @@
 #include "tinyxml2.h"
 #include "../instructions/field_instruction.h"
 #include <cstring>
-#include <boost/lexical_cast.hpp>
+#include "xml_util.h"
 
 namespace mfast {
 namespace xml_parser {
@@ -78,7 +78,7 @@ struct fast_xml_attributes {
   }
 
   uint32_t get_id(const field_instruction *inst) const {
-    return id_ ? boost::lexical_cast<uint32_t>(id_) : inst->id();
+    return id_ ? parse_unsigned<uint32_t>(id_) : inst->id();
   }
 
   const char *get_name(arena_allocator &alloc) const {
diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index a9c959f..2a44255 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -519,7 +519,7 @@ void field_builder::visit(const template_instruction *inst, void *) {
   }
 
   auto instruction = new (alloc()) template_instruction(
-      id_ ? boost::lexical_cast<uint32_t>(id_) : 0, string_dup(name_, alloc()),
+      id_ ? parse_unsigned<uint32_t>(id_) : 0, string_dup(name_, alloc()),
       string_dup(ns_, alloc()), string_dup(templateNs_, alloc()),
       string_dup(dictionary_, alloc()), build_subfields(), reset,
       get_typeRef_name(*content_element_), get_typeRef_ns(*content_element_), inst->cpp_ns(),
@@ -628,7 +628,7 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
 
         const char *value_str = xml_element->Attribute("value");
         if (value_str) {
-          uint64_t v = boost::lexical_cast<uint64_t>(value_str);
+          uint64_t v = parse_unsigned<uint64_t>(value_str);
           if (values.empty() || v > values.back()) {
             values.push_back(v);
           }
@@ -732,7 +732,7 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
 
         const char *value_str = xml_element->Attribute("value");
         if (value_str) {
-          uint64_t v = boost::lexical_cast<uint64_t>(value_str);
+          uint64_t v = parse_unsigned<uint64_t>(value_str);
           if (values.empty() || v > values.back()) {
             values.push_back(v);
           }
@@ -868,7 +868,7 @@ instruction_tag field_builder::parse_tag(const field_instruction *inst) {
   uint64_t value = inst->tag().to_uint64();
   if (tag_) {
     try {
-      value |= boost::lexical_cast<uint64_t>(tag_);
+      value |= parse_unsigned<uint64_t>(tag_);
     } catch (...) {
       const enum_field_instruction *inst =
           dynamic_cast<const enum_field_instruction *>(
diff --git a/src/mfast/xml_parser/field_builder.h b/src/mfast/xml_parser/field_builder.h
index 7a92a0b..5166520 100644
--- a/src/mfast/xml_parser/field_builder.h
+++ b/src/mfast/xml_parser/field_builder.h
@@ -46,7 +46,7 @@ protected:
   template <typename Instruction>
   uint32_t get_length_id(const Instruction *inst,
                          const fast_xml_attributes &length_attrs) const {
-    return length_attrs.id_ ? static_cast<uint32_t>(std::stoi(length_attrs.id_))
+    return length_attrs.id_ ? parse_unsigned<uint32_t>(length_attrs.id_)
                             : inst->length_id();
   }
 
diff --git a/src/mfast/xml_parser/field_op.h b/src/mfast/xml_parser/field_op.h
index e258f15..fabef65 100644
--- a/src/mfast/xml_parser/field_op.h
+++ b/src/mfast/xml_parser/field_op.h
@@ -74,7 +74,7 @@ private:
                       const uint32_field_instruction *) {
     if (init_value_str) {
       initial_value_.present(true);
-      initial_value_.set(boost::lexical_cast<uint32_t>(init_value_str));
+      initial_value_.set(parse_unsigned<uint32_t>(init_value_str));
     }
   }
 
@@ -90,7 +90,7 @@ private:
                       const uint64_field_instruction *) {
     if (init_value_str) {
       initial_value_.present(true);
-      initial_value_.set(boost::lexical_cast<uint64_t>(init_value_str));
+      initial_value_.set(parse_unsigned<uint64_t>(init_value_str));
     }
   }
 
diff --git a/src/mfast/xml_parser/xml_util.h b/src/mfast/xml_parser/xml_util.h
index 16dfe49..69b447c 100644
--- a/src/mfast/xml_parser/xml_util.h
+++ b/src/mfast/xml_parser/xml_util.h
@@ -6,6 +6,8 @@
 #pragma once
 
 #include "tinyxml2.h"
+#include <cstring>
+#include <boost/lexical_cast.hpp>
 #include "../arena_allocator.h"
 
 namespace mfast {
@@ -18,6 +20,14 @@ inline const char *get_optional_attr(const XMLElement &element,
   return attr ? attr->Value() : default_value;
 }
 
+// boost::lexical_cast would turn a negative number into a huge one
+template <typename T> inline T parse_unsigned(const char *str) {
+  if (std::strchr(str, '-'))
+    boost::throw_exception(
+        boost::bad_lexical_cast(typeid(const char *), typeid(T)));
+  return boost::lexical_cast<T>(str);
+}
+
 inline const char *string_dup(const char *str, arena_allocator &alloc) {
   if (str == nullptr || str[0] == '\x0')
     return "";
-- 
2.43.0


From cb7143107a9de647af1d7d014dc42d31db47d1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:19 +0000
Subject: [PATCH 64/83] fix: refuse documents without templates

---
 src/mfast/instructions/templates_description.h | 4 +++-
 src/mfast/xml_parser/templates_builder.cpp     | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mfast/instructions/templates_description.h b/src/mfast/instructions/templates_description.h
index 0689423..290270e 100644
--- a/src/mfast/instructions/templates_description.h
+++ b/src/mfast/instructions/templates_description.h
@@ -42,7 +42,9 @@ public:
   uint32_t size() const { return instructions_count_; }
 
 protected:
-  templates_description() {}
+  templates_description()
+      : ns_(""), template_ns_(""), dictionary_(""), instructions_(nullptr),
+        instructions_count_(0) {}
   friend class coder::templates_builder;
   const char *ns_;
   const char *template_ns_;
diff --git a/src/mfast/xml_parser/templates_builder.cpp b/src/mfast/xml_parser/templates_builder.cpp
index 88341c6..1c4f6e0 100644
--- a/src/mfast/xml_parser/templates_builder.cpp
+++ b/src/mfast/xml_parser/templates_builder.cpp
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #include "templates_builder.h"
 #include "field_builder.h"
+#include "field_op.h"
 #include "../boolean_ref.h"
 #include "view_info_builder.h"
 #include "../exceptions.h"
@@ -205,6 +206,12 @@ dynamic_templates_description::dynamic_templates_description(
     const char *xml_content, const char *cpp_ns, template_registry *registry) {
   XMLDocument document;
   if (document.Parse(xml_content) == 0) {
+    const XMLElement *root = document.RootElement();
+    if (root == nullptr || std::strcmp(root->Name(), "templates") != 0)
+      BOOST_THROW_EXCEPTION(
+          fast_static_error("S1") << xml_parser::reason_info(
+              "the root of a template definition must be templates"));
+
     xml_parser::templates_builder builder(this, cpp_ns, registry);
     document.Accept(&builder);
   } else {
-- 
2.43.0


From 648715e107d04296d2e827ca7872a8663589b5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:55 +0000
Subject: [PATCH 65/83] fix: a sequence without fields which has an initial
 length

---
 src/mfast/instructions/sequence_instruction.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mfast/instructions/sequence_instruction.cpp b/src/mfast/instructions/sequence_instruction.cpp
index 6ee7c47..871a26f 100644
--- a/src/mfast/instructions/sequence_instruction.cpp
+++ b/src/mfast/instructions/sequence_instruction.cpp
@@ -94,8 +94,8 @@ void sequence_field_instruction::construct_value(value_storage &storage,
   uint32_t initial_length =
       sequence_length_instruction_->initial_value().get<uint32_t>();
   storage.of_array.len_ = optional() ? 0 : initial_length + 1;
-  if (sequence_length_instruction_ && initial_length > 0) {
-    std::size_t element_size = this->group_content_byte_count();
+  std::size_t element_size = this->group_content_byte_count();
+  if (sequence_length_instruction_ && initial_length > 0 && element_size > 0) {
     std::size_t reserve_size = initial_length * element_size;
     storage.of_array.content_ = nullptr;
     storage.of_array.capacity_in_bytes_ =
@@ -136,8 +136,8 @@ void sequence_field_instruction::copy_construct_value(const value_storage &src,
 
   dest.of_array.len_ = src.of_array.len_;
 
-  if (size) {
-    std::size_t element_size = this->group_content_byte_count();
+  std::size_t element_size = this->group_content_byte_count();
+  if (size && element_size) {
     std::size_t reserve_size = size * element_size;
 
     dest.of_array.content_ = nullptr;
-- 
2.43.0


From 79c9a6e47d7af3168276825e32c6d7852ccba769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:55 +0000
Subject: [PATCH 66/83] fix: a sole template reference in a group with a
 namespace

---
 src/mfast/xml_parser/field_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 2a44255..86452c9 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -404,7 +404,7 @@ const group_field_instruction *field_builder::get_sole_templateref() {
     const char *target_name = child->Attribute("name", nullptr);
     if (target_name) {
       const char *target_ns =
-          get_optional_attr(*child, "templateNs", parent_->resolved_ns());
+          get_optional_attr(*child, "templateNs", this->resolved_ns());
 
       const group_field_instruction *target =
           dynamic_cast<const group_field_instruction *>(
-- 
2.43.0


From a1d2bf665c67fd3be01d9fc3e8d8c4a1503f2ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:12 +0000
Subject: [PATCH 67/83] fix: names and namespaces are written to generated code
 as string literals

---
 src/fast_type_gen/cpp_gen.cpp | 85 ++++++++++++++++++-----------------
 1 file changed, 45 insertions(+), 40 deletions(-)

diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index e4b88bf..0091478 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #include "cpp_gen.h"
 #include <boost/io/ios_state.hpp>
+#include <cstring>
 #include <iomanip>
 #include <sstream>
 
@@ -44,6 +45,11 @@ static std::string escaped(const char *str, std::size_t len) {
   return strm.str();
 }
 
+// A string literal for a name or namespace.
+static std::string literal(const char *str) {
+  return "\"" + escaped(str, std::strlen(str)) + "\"";
+}
+
 const char *get_operator_name(const mfast::field_instruction *inst) {
   const char *names[] = {
       "operator_none",    "operator_constant", "operator_delta",
@@ -66,9 +72,9 @@ std::string cpp_gen::gen_op_context(const char *name,
 
   out_ << "const static "
        << "op_context_t " << prefix_string() << name << "_opContext ={\n"
-       << "  \"" << context->key_ << "\", \n"
-       << "  \"" << context->ns_ << "\", \n"
-       << "  \"" << context->dictionary_ << "\"};\n\n";
+       << "  " << literal(context->key_) << ", \n"
+       << "  " << literal(context->ns_) << ", \n"
+       << "  " << literal(context->dictionary_) << "};\n\n";
 
   std::stringstream result;
   result << "&" << prefix_string() << name << "_opContext";
@@ -86,8 +92,8 @@ void cpp_gen::gen_field(const mfast::field_instruction *inst,
        << "  " << get_operator_name(inst) << ",\n"
        << "  " << get_presence(inst) << ",\n"
        << "  " << inst->id() << ", // id\n"
-       << "  \"" << inst->name() << "\", // name\n"
-       << "  \"" << inst->ns() << "\", // ns\n"
+       << "  " << literal(inst->name()) << ", // name\n"
+       << "  " << literal(inst->ns()) << ", // ns\n"
        << "  " << context << ",  // opContext\n";
 
   add_to_instruction_list(name);
@@ -204,8 +210,8 @@ void cpp_gen::visit(const mfast::unicode_field_instruction *inst,
   if (inst->length_name()) {
     out_ << ", // initial value\n"
          << "  " << inst->length_id() << ", // length id\n"
-         << "  \"" << inst->length_name() << "\", // length name\n"
-         << "  \"" << inst->length_ns() << "\"); // length ns\n\n";
+         << "  " << literal(inst->length_name()) << ", // length name\n"
+         << "  " << literal(inst->length_ns()) << "); // length ns\n\n";
   } else {
     out_ << ", // initial_value\n"
          << "  " << inst->tag() << "); // tag\n\n";
@@ -239,8 +245,8 @@ void cpp_gen::visit(const mfast::byte_vector_field_instruction *inst,
   if (inst->length_name()) {
     out_ << ", // initial value\n"
          << "  " << inst->length_id() << ", // length id\n"
-         << "  \"" << inst->length_name() << "\", // length name\n"
-         << "  \"" << inst->length_ns() << "\", // length ns\n"
+         << "  " << literal(inst->length_name()) << ", // length name\n"
+         << "  " << literal(inst->length_ns()) << ", // length ns\n"
          << "  " << inst->tag() << "); // tag\n\n";
   } else {
     out_ << ", // initial_value\n"
@@ -258,8 +264,8 @@ void cpp_gen::gen_int_vector(const char *cpp_type,
        << prefix_string() << name << "_instruction(\n"
        << "  " << get_presence(inst) << ",\n"
        << "  " << inst->id() << ", // id\n"
-       << "  \"" << inst->name() << "\", // name\n"
-       << "  \"" << inst->ns() << "\", // ns\n"
+       << "  " << literal(inst->name()) << ", // name\n"
+       << "  " << literal(inst->ns()) << ", // ns\n"
        << "  " << inst->tag() << "); // tag\n\n";
 
   add_to_instruction_list(name);
@@ -376,12 +382,11 @@ void cpp_gen::visit(const mfast::group_field_instruction *inst, void *pIndex) {
 
   out_ << "  " << get_presence(inst) << ",\n"
        << "  " << inst->id() << ", // id\n"
-       << "  \"" << inst->name() << "\", // name\n"
-       << "  \"" << inst->ns() << "\", // ns\n"
-       << "  \"" << inst->dictionary() << "\", // dictionary\n"
-       << subinstruction_arg << "  \"" << inst->typeref_name()
-       << "\", // typeRef name \n"
-       << "  \"" << inst->typeref_ns() << "\", // typeRef ns \n"
+       << "  " << literal(inst->name()) << ", // name\n"
+       << "  " << literal(inst->ns()) << ", // ns\n"
+       << "  " << literal(inst->dictionary()) << ", // dictionary\n"
+       << subinstruction_arg << "  " << literal(inst->typeref_name()) << ", // typeRef name \n"
+       << "  " << literal(inst->typeref_ns()) << ", // typeRef ns \n"
        << "  \"\", // cpp_ns\n"
        << "  " << inst->tag() << "); // tag\n\n";
 
@@ -422,8 +427,8 @@ void cpp_gen::visit(const mfast::sequence_field_instruction *inst,
          << "  " << get_operator_name(inst->length_instruction()) << ",\n"
          << "  " << get_presence(inst->length_instruction()) << ",\n"
          << "  " << inst->length_instruction()->id() << ", // id\n"
-         << "  \"" << inst->length_instruction()->name() << "\", // name\n"
-         << "  \"" << inst->length_instruction()->ns() << "\", // ns\n"
+         << "  " << literal(inst->length_instruction()->name()) << ", // name\n"
+         << "  " << literal(inst->length_instruction()->ns()) << ", // ns\n"
          << "  " << context << ",  // opContext\n"
          << "  int_value_storage<uint32_t>(";
     if (!inst->length_instruction()->initial_value().is_empty())
@@ -484,13 +489,13 @@ void cpp_gen::visit(const mfast::sequence_field_instruction *inst,
 
   out_ << "  " << get_presence(inst) << ",\n"
        << "  " << inst->id() << ", // id\n"
-       << "  \"" << inst->name() << "\", // name\n"
-       << "  \"" << inst->ns() << "\", // ns\n"
-       << "  \"" << inst->dictionary() << "\", // dictionary\n"
+       << "  " << literal(inst->name()) << ", // name\n"
+       << "  " << literal(inst->ns()) << ", // ns\n"
+       << "  " << literal(inst->dictionary()) << ", // dictionary\n"
        << subinstruction_arg.str() << "  " << lengthInstruction
        << ", // length\n"
-       << "  \"" << inst->typeref_name() << "\", // typeRef name \n"
-       << "  \"" << inst->typeref_ns() << "\", // typeRef ns \n"
+       << "  " << literal(inst->typeref_name()) << ", // typeRef name \n"
+       << "  " << literal(inst->typeref_ns()) << ", // typeRef ns \n"
        << "  \"\", // cpp_ns\n"
        << "  " << inst->tag() << "); //tag \n\n";
 
@@ -524,14 +529,14 @@ void cpp_gen::visit(const mfast::template_instruction *inst, void *) {
 
   out_ << "  const static " << name << "::instruction_type the_instruction(\n"
        << "    " << inst->id() << ", // id\n"
-       << "    \"" << inst->name() << "\", // name\n"
-       << "    \"" << inst->ns() << "\", // ns\n"
-       << "    \"" << inst->template_ns() << "\", // templateNs\n"
-       << "    \"" << inst->dictionary() << "\", // dictionary\n"
+       << "    " << literal(inst->name()) << ", // name\n"
+       << "    " << literal(inst->ns()) << ", // ns\n"
+       << "    " << literal(inst->template_ns()) << ", // templateNs\n"
+       << "    " << literal(inst->dictionary()) << ", // dictionary\n"
        << "    " << name << "__subinstructions,\n"
        << "    " << inst->has_reset_attribute() << ", // reset\n"
-       << "  \"" << inst->typeref_name() << "\", // typeRef name \n"
-       << "  \"" << inst->typeref_ns() << "\", // typeRef ns \n"
+       << "  " << literal(inst->typeref_name()) << ", // typeRef name \n"
+       << "  " << literal(inst->typeref_ns()) << ", // typeRef ns \n"
        << "  \"\", // cpp_ns\n"
        << "  " << inst->tag() << "); // tag \n\n"
        << "  ptr_instruction = &the_instruction;\n"
@@ -576,9 +581,9 @@ void cpp_gen::generate(mfast::dynamic_templates_description &desc) {
          << "_templates_instructions[] ={\n" << instructions << "};\n\n"
          << "templates_description::templates_description()\n"
          << "  : mfast::templates_description(\n"
-         << "    \"" << desc.ns() << "\", // ns\n"
-         << "    \"" << desc.template_ns() << "\", // templateNs\n"
-         << "    \"" << desc.dictionary() << "\", // dictionary\n"
+         << "    " << literal(desc.ns()) << ", // ns\n"
+         << "    " << literal(desc.template_ns()) << ", // templateNs\n"
+         << "    " << literal(desc.dictionary()) << ", // dictionary\n"
          << "    " << filebase_ << "_templates_instructions)\n"
          << "{\n"
          << "}\n\n"
@@ -636,7 +641,7 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
       if (i != 0) {
         out_ << ",\n";
       }
-      out_ << "  \"" << inst->elements()[i] << "\"";
+      out_ << "  " << literal(inst->elements()[i]);
     }
     out_ << "};\n";
 
@@ -663,8 +668,8 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
        << "  " << get_operator_name(inst) << ",\n"
        << "  " << get_presence(inst) << ",\n"
        << "  " << inst->id() << ", // id\n"
-       << "  \"" << inst->name() << "\", // name\n"
-       << "  \"" << inst->ns() << "\", // ns\n"
+       << "  " << literal(inst->name()) << ", // name\n"
+       << "  " << literal(inst->ns()) << ", // ns\n"
        << "  " << context << ",  // opContext\n"
        << "  int_value_storage<uint64_t>(";
 
@@ -727,7 +732,7 @@ void cpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
     {
       if (i != 0)
         out_ << ",\n";
-      out_ << "  \"" << inst->elements()[i] << "\"";
+      out_ << "  " << literal(inst->elements()[i]);
     }
     out_ << "};\n";
   }
@@ -740,8 +745,8 @@ void cpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
        << "  " << get_operator_name(inst) << ",\n"
        << "  " << get_presence(inst) << ",\n"
        << "  " << inst->id() << ", // id\n"
-       << "  \"" << inst->name() << "\", // name\n"
-       << "  \"" << inst->ns() << "\", // ns\n"
+       << "  " << literal(inst->name()) << ", // name\n"
+       << "  " << literal(inst->ns()) << ", // ns\n"
        << "  " << context << ",  // opContext\n"
        << "  int_value_storage<uint64_t>(";
 
@@ -803,7 +808,7 @@ void cpp_gen::generate(const mfast::aggregate_view_info &info) {
   }
 
   out_ << "const mfast::aggregate_view_info " << my_name << "::info_(\n"
-       << "  \"" << info.name_ << "\",\n"
+       << "  " << literal(info.name_) << ",\n"
        << "  " << ns_prefix << cpp_name(info.instruction_->name())
        << "::instruction(),\n"
        << "  mfast::array_view<const  mfast::field_view_info>(__" << my_name
-- 
2.43.0


From 338bac5b6ad392520abf4097c7473d0ed6e26635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:12 +0000
Subject: [PATCH 68/83] fix: dictionary keys of fields whose name is no C++
 identifier

---
 src/fast_type_gen/cpp_gen.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index 0091478..c2c106c 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -71,13 +71,14 @@ std::string cpp_gen::gen_op_context(const char *name,
     return "nullptr";
 
   out_ << "const static "
-       << "op_context_t " << prefix_string() << name << "_opContext ={\n"
+       << "op_context_t " << prefix_string() << cpp_name(name)
+       << "_opContext ={\n"
        << "  " << literal(context->key_) << ", \n"
        << "  " << literal(context->ns_) << ", \n"
        << "  " << literal(context->dictionary_) << "};\n\n";
 
   std::stringstream result;
-  result << "&" << prefix_string() << name << "_opContext";
+  result << "&" << prefix_string() << cpp_name(name) << "_opContext";
   return result.str();
 }
 
-- 
2.43.0


From 744426112a1a50a4e0ac340364f0337ef7b6b5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:12 +0000
Subject: [PATCH 69/83] fix: references to types whose name is no C++
 identifier

---
 src/fast_type_gen/codegen_base.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/fast_type_gen/codegen_base.cpp b/src/fast_type_gen/codegen_base.cpp
index 481031c..e10b368 100644
--- a/src/fast_type_gen/codegen_base.cpp
+++ b/src/fast_type_gen/codegen_base.cpp
@@ -120,6 +120,11 @@ bool codegen_base::is_const_field(const mfast::field_instruction *inst) const {
 
 using namespace mfast;
 
+// elements of sequences need no name
+static std::string type_name(const field_instruction *inst) {
+  return inst->name()[0] ? codegen_base::cpp_name(inst) : std::string();
+}
+
 class type_name_finder : public field_instruction_visitor {
 public:
   std::string name_;
@@ -167,9 +172,9 @@ public:
       inst->ref_instruction()->accept(*this, pIndex);
     } else if (inst->cpp_ns() == nullptr || inst->cpp_ns()[0] == 0 ||
                strcmp(caller_cpp_ns_, inst->cpp_ns()) == 0) {
-      name_ = inst->name();
+      name_ = type_name(inst);
     } else {
-      name_ = std::string(inst->cpp_ns()) + "::" + inst->name();
+      name_ = std::string(inst->cpp_ns()) + "::" + type_name(inst);
       if (dependency_)
         dependency_->insert(inst->cpp_ns());
     }
@@ -209,9 +214,9 @@ public:
       inst->ref_instruction()->accept(*this, pIndex);
     } else if (inst->cpp_ns() == nullptr || inst->cpp_ns()[0] == 0 ||
                strcmp(caller_cpp_ns_, inst->cpp_ns()) == 0) {
-      name_ = inst->name();
+      name_ = type_name(inst);
     } else {
-      name_ = std::string(inst->cpp_ns()) + "::" + inst->name();
+      name_ = std::string(inst->cpp_ns()) + "::" + type_name(inst);
       if (dependency_)
         dependency_->insert(inst->cpp_ns());
     }
@@ -223,9 +228,9 @@ public:
       inst->ref_instruction()->accept(*this, pIndex);
     } else if (inst->cpp_ns() == nullptr || inst->cpp_ns()[0] == 0 ||
                strcmp(caller_cpp_ns_, inst->cpp_ns()) == 0) {
-      name_ = inst->name();
+      name_ = type_name(inst);
     } else {
-      name_ = std::string(inst->cpp_ns()) + "::" + inst->name();
+      name_ = std::string(inst->cpp_ns()) + "::" + type_name(inst);
       if (dependency_)
         dependency_->insert(inst->cpp_ns());
     }
-- 
2.43.0


From 7a571964be62ac57b8289302dd5ba1cf79e6c535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:22 +0000
Subject: [PATCH 70/83] fix: the tag of a unicode string in generated code

---
 src/fast_type_gen/cpp_gen.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index c2c106c..e42d4e6 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -212,7 +212,8 @@ void cpp_gen::visit(const mfast::unicode_field_instruction *inst,
     out_ << ", // initial value\n"
          << "  " << inst->length_id() << ", // length id\n"
          << "  " << literal(inst->length_name()) << ", // length name\n"
-         << "  " << literal(inst->length_ns()) << "); // length ns\n\n";
+         << "  " << literal(inst->length_ns()) << ", // length ns\n"
+         << "  " << inst->tag() << "); // tag\n\n";
   } else {
     out_ << ", // initial_value\n"
          << "  " << inst->tag() << "); // tag\n\n";
-- 
2.43.0


From fc32bb3d363accca0c9ac7ce711452ca02532bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:27 +0000
Subject: [PATCH 71/83] fix: generated code of defined types which are another
 type

---
 src/fast_type_gen/cpp_gen.cpp | 12 ++++++++++++
 src/fast_type_gen/hpp_gen.cpp |  8 ++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index e42d4e6..d662f14 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -344,6 +344,10 @@ cpp_gen::get_subinstructions(const mfast::group_field_instruction *inst) {
 }
 
 void cpp_gen::visit(const mfast::group_field_instruction *inst, void *pIndex) {
+  // a defined type which is another type has no instruction of its own
+  if (pIndex == nullptr && !need_generate_subinstructions(inst))
+    return;
+
   std::string name(cpp_name(inst));
 
   std::string qualified_name = name;
@@ -601,6 +605,10 @@ void cpp_gen::generate(mfast::dynamic_templates_description &desc) {
 }
 
 void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
+  // a defined type which is another type has no instruction of its own
+  if (pIndex == nullptr && inst->ref_instruction())
+    return;
+
   std::string name(cpp_name(inst));
   std::string qualified_name = name;
   std::string instruction_variable_name;
@@ -694,6 +702,10 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
 
 void cpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
 {
+  // a defined type which is another type has no instruction of its own
+  if (pIndex == nullptr && inst->ref_instruction())
+    return;
+
   std::string name(cpp_name(inst));
   std::string qualified_name = name;
   std::string instruction_variable_name;
diff --git a/src/fast_type_gen/hpp_gen.cpp b/src/fast_type_gen/hpp_gen.cpp
index a5360b8..c3cdaee 100644
--- a/src/fast_type_gen/hpp_gen.cpp
+++ b/src/fast_type_gen/hpp_gen.cpp
@@ -127,6 +127,14 @@ void hpp_gen::visit(const mfast::group_field_instruction *inst, void *pIndex) {
       header_mref_ << indent << "void link_" << name << "(const " << name
                    << "_mref& ref) const;\n" << indent << "void unlink_" << name
                    << "() const;\n";
+    } else {
+      // a defined type which is another type
+      content_ << "typedef " << cpp_type << "_cref " << name << "_cref;\n"
+               << "typedef " << cpp_type << "_mref " << name << "_mref;\n";
+      if (inst->ref_instruction())
+        content_ << "typedef " << cpp_type << " " << name << ";\n";
+      content_ << "\n";
+      return;
     }
   } else {
 
-- 
2.43.0


From 2de6608637a391a51d4f06f809410b4e01c006d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:00 +0000
Subject: [PATCH 72/83] fix: generated types which refer to templates defined
 before them

---
 src/fast_type_gen/codegen_base.cpp                   | 7 ++-----
 src/mfast/xml_parser/dynamic_templates_description.h | 6 ++++++
 src/mfast/xml_parser/templates_builder.cpp           | 2 ++
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/fast_type_gen/codegen_base.cpp b/src/fast_type_gen/codegen_base.cpp
index e10b368..08ae179 100644
--- a/src/fast_type_gen/codegen_base.cpp
+++ b/src/fast_type_gen/codegen_base.cpp
@@ -56,17 +56,14 @@ void codegen_base::set_generate_comment(bool generateComment){
 }
 
 void codegen_base::traverse(mfast::dynamic_templates_description &desc) {
-  for (auto inst : desc.defined_type_instructions()) {
+  // A type can refer to a template defined before it, and vice versa.
+  for (auto inst : desc.definitions()) {
     // we use the second parameter to identify whether the instruction is nested.
     // If the
     // second parameter is not 0, it is nested inside another composite types.
     if (!dont_generate(inst))
       inst->accept(*this, nullptr);
   }
-
-  for (size_t i = 0; i < desc.size(); ++i) {
-    desc[i]->accept(*this, nullptr);
-  }
 }
 
 void codegen_base::traverse(const mfast::group_field_instruction *inst,
diff --git a/src/mfast/xml_parser/dynamic_templates_description.h b/src/mfast/xml_parser/dynamic_templates_description.h
index fcf7df8..7761f44 100644
--- a/src/mfast/xml_parser/dynamic_templates_description.h
+++ b/src/mfast/xml_parser/dynamic_templates_description.h
@@ -48,6 +48,11 @@ public:
 
   const std::deque<const field_instruction *> &
   defined_type_instructions() const;
+
+  /// The types which are defined and the templates, as ordered in the XML.
+  const std::deque<const field_instruction *> &definitions() const {
+    return definitions_;
+  }
   const std::deque<aggregate_view_info> &view_infos() const {
     return view_infos_;
   }
@@ -55,6 +60,7 @@ public:
 private:
   friend class xml_parser::templates_builder;
   std::deque<const field_instruction *> defined_type_instructions_;
+  std::deque<const field_instruction *> definitions_;
   std::deque<aggregate_view_info> view_infos_;
 };
 }
diff --git a/src/mfast/xml_parser/templates_builder.cpp b/src/mfast/xml_parser/templates_builder.cpp
index 1c4f6e0..3668c1e 100644
--- a/src/mfast/xml_parser/templates_builder.cpp
+++ b/src/mfast/xml_parser/templates_builder.cpp
@@ -174,6 +174,7 @@ void templates_builder::add_instruction(const field_instruction *inst) {
 
   if (inst->field_type() >= field_type_sequence) {
     definition_->defined_type_instructions_.push_back(inst);
+    definition_->definitions_.push_back(inst);
     const char *ns = inst->ns();
     if (ns == nullptr || ns[0] == '\0')
       ns = resolved_ns_;
@@ -184,6 +185,7 @@ void templates_builder::add_instruction(const field_instruction *inst) {
 void templates_builder::add_template(const char *ns,
                                      template_instruction *inst) {
   templates_.push_back(inst);
+  definition_->definitions_.push_back(inst);
   registry()->add(ns, inst);
 }
 
-- 
2.43.0


From 6effcfb2f2463f2bddda101656e4b6db89232148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:42 +0000
Subject: [PATCH 73/83] fix: strings exported to SQLite end where they end

---
 src/mfast/sqlite3/converter_core.cpp | 17 ++++++++++-------
 src/mfast/sqlite3/converter_core.h   |  5 +++--
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/mfast/sqlite3/converter_core.cpp b/src/mfast/sqlite3/converter_core.cpp
index 59ebfde..170815c 100644
--- a/src/mfast/sqlite3/converter_core.cpp
+++ b/src/mfast/sqlite3/converter_core.cpp
@@ -169,14 +169,17 @@ void converter_core::bind(const template_info &info, unsigned column,
 }
 
 void converter_core::bind(const template_info &info, unsigned column,
-                          const char *str) const {
-  info.binding_[column] = str;
+                          const char *str, std::size_t size) const {
+  // neither terminated nor free of null characters
+  if (size == 0)
+    str = "";
+  info.binding_[column].assign(str, size);
 
-  if (sqlite3_bind_text(info.insert_stmt_, column, str, -1, SQLITE_STATIC) !=
+  if (sqlite3_bind_text(info.insert_stmt_, column, str, size, SQLITE_STATIC) !=
       SQLITE_OK)
     BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_bind_text"));
   if (info.find_key_stmt_)
-    if (sqlite3_bind_text(info.find_key_stmt_, column, str, -1,
+    if (sqlite3_bind_text(info.find_key_stmt_, column, str, size,
                           SQLITE_STATIC) != SQLITE_OK)
       BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_bind_text"));
 }
@@ -229,9 +232,9 @@ public:
                static_cast<value_storage *>(storage)->get<int64_t>());
   }
 
-  void visit(const ascii_field_instruction *, void *storage) {
-    core_.bind(info_, column_,
-               static_cast<value_storage *>(storage)->get<const char *>());
+  void visit(const ascii_field_instruction *inst, void *storage) {
+    ascii_string_cref ref(static_cast<value_storage *>(storage), inst);
+    core_.bind(info_, column_, ref);
   }
 
   void visit(const byte_vector_field_instruction *inst, void *storage) {
diff --git a/src/mfast/sqlite3/converter_core.h b/src/mfast/sqlite3/converter_core.h
index 04cd11d..74f7bd8 100644
--- a/src/mfast/sqlite3/converter_core.h
+++ b/src/mfast/sqlite3/converter_core.h
@@ -44,12 +44,13 @@ public:
 
   void bind(const template_info &info, unsigned column,
             const decimal_cref &ref) const;
-  void bind(const template_info &info, unsigned column, const char *str) const;
+  void bind(const template_info &info, unsigned column, const char *str,
+            std::size_t size) const;
 
   template <typename T>
   void bind(const template_info &info, unsigned column,
             const string_cref<T> &ref) const {
-    bind(info, column, ref.c_str());
+    bind(info, column, reinterpret_cast<const char *>(ref.data()), ref.size());
   }
 
   void bind(const template_info &info, unsigned column,
-- 
2.43.0


From 3a774ab9fdb7605b79a40f0f0ebfaa5b5d3675b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:42 +0000
Subject: [PATCH 74/83] fix: integers exported to SQLite are truncated to 32
 bits

---
 src/mfast/sqlite3/converter_core.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mfast/sqlite3/converter_core.cpp b/src/mfast/sqlite3/converter_core.cpp
index 170815c..f79d18a 100644
--- a/src/mfast/sqlite3/converter_core.cpp
+++ b/src/mfast/sqlite3/converter_core.cpp
@@ -144,12 +144,12 @@ void converter_core::bind(const template_info &info, unsigned column,
                           int64_t value) const {
   info.binding_[column] = boost::lexical_cast<std::string>(value);
 
-  if (sqlite3_bind_int(info.insert_stmt_, column, value) != SQLITE_OK)
-    BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_bind_int"));
+  if (sqlite3_bind_int64(info.insert_stmt_, column, value) != SQLITE_OK)
+    BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_bind_int64"));
 
   if (info.find_key_stmt_)
-    if (sqlite3_bind_int(info.find_key_stmt_, column, value) != SQLITE_OK)
-      BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_bind_int"));
+    if (sqlite3_bind_int64(info.find_key_stmt_, column, value) != SQLITE_OK)
+      BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_bind_int64"));
 }
 
 void converter_core::bind(const template_info &info, unsigned column,
-- 
2.43.0


From c51ebf86293cc265b395c488a58aec1a9084d5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:01 +0000
Subject: [PATCH 75/83] fix: columns of absent groups and sequences exported to
 SQLite

---
 src/mfast/sqlite3/first_pass_visitor.cpp | 33 +++++++++++++++++-------
 src/mfast/sqlite3/sequence_inserter.h    |  2 +-
 src/mfast/sqlite3/value_binder.h         |  2 ++
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/mfast/sqlite3/first_pass_visitor.cpp b/src/mfast/sqlite3/first_pass_visitor.cpp
index 2efde54..28cc0f5 100644
--- a/src/mfast/sqlite3/first_pass_visitor.cpp
+++ b/src/mfast/sqlite3/first_pass_visitor.cpp
@@ -57,15 +57,32 @@ public:
   }
 
   void bind(const sequence_field_instruction *inst) {
-    traverse_aggregate(inst);
+    if (dynamic_cast<const template_instruction *>(inst->ref_instruction()))
+      return; // it has its own table
+    if (dynamic_cast<const template_instruction *>(inst->element_instruction()))
+      core_.bind_null(info_, current_column_++);
+    else
+      traverse_aggregate(inst);
+    if (core_.is_ordered(inst))
+      core_.bind_null(info_, current_column_++);
   }
 };
 
+void value_binder::bind_null(const field_instruction *inst) {
+  null_binder_visitor binder(core_, info_, current_column_);
+  if (inst->field_type() == field_type_sequence)
+    binder.bind(static_cast<const sequence_field_instruction *>(inst));
+  else if (inst->field_type() == field_type_group)
+    inst->accept(binder, nullptr);
+  else
+    bind_null();
+}
+
 first_pass_visitor::first_pass_visitor(const converter_core &core,
                                        const group_field_instruction *inst,
                                        const field_cref &foreign_key)
     : value_binder(core, core.info(inst), 1), nested_group_pass_needed_(false),
-      nested_sequence_pass_needed_(false) {
+      nested_sequence_pass_needed_(false), rowid_(0) {
   if (foreign_key.present())
     this->bind(foreign_key);
 }
@@ -76,16 +93,12 @@ void first_pass_visitor::visit(const sequence_cref &ref, int) {
   const template_instruction *ref_instruction =
       dynamic_cast<const template_instruction *>(inst->ref_instruction());
 
-  const template_instruction *element_instruction =
-      dynamic_cast<const template_instruction *>(inst->element_instruction());
-
-  if (ref_instruction == nullptr && element_instruction == nullptr) {
-    null_binder_visitor binder(core_, info_, current_column_);
-    binder.bind(inst);
+  if (ref_instruction == nullptr) {
+    this->bind_null(inst);
+    nested_sequence_pass_needed_ = true;
   } else {
     nested_group_pass_needed_ = true;
   }
-  nested_sequence_pass_needed_ = (ref_instruction == nullptr);
 }
 
 void first_pass_visitor::visit(const aggregate_cref &ref, int) {
@@ -103,7 +116,7 @@ void first_pass_visitor::traverse(const aggregate_cref &ref) {
     field_cref field(ref[i]);
     if (!core_.to_skip(field)) {
       if (field.absent()) {
-        this->bind_null();
+        this->bind_null(field.instruction());
       } else {
         apply_accessor(*this, field);
       }
diff --git a/src/mfast/sqlite3/sequence_inserter.h b/src/mfast/sqlite3/sequence_inserter.h
index 555c06c..aa84bb5 100644
--- a/src/mfast/sqlite3/sequence_inserter.h
+++ b/src/mfast/sqlite3/sequence_inserter.h
@@ -30,7 +30,7 @@ public:
       field_cref field(cref[i]);
       if (!core_.to_skip(field)) {
         if (field.absent()) {
-          this->bind_null();
+          this->bind_null(field.instruction());
         } else {
           apply_accessor(*this, field);
         }
diff --git a/src/mfast/sqlite3/value_binder.h b/src/mfast/sqlite3/value_binder.h
index b70ade2..c21f899 100644
--- a/src/mfast/sqlite3/value_binder.h
+++ b/src/mfast/sqlite3/value_binder.h
@@ -12,6 +12,8 @@ protected:
 
   void bind_int(int64_t value) { core_.bind(info_, current_column_++, value); }
   void bind_null() { core_.bind_null(info_, current_column_++); }
+  // binds all the columns of a field to null
+  void bind_null(const field_instruction *inst);
 
 public:
   value_binder(const converter_core &core, const template_info &info,
-- 
2.43.0


From 9953926d972a1527aeb939881b95a07f00620ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:01 +0000
Subject: [PATCH 76/83] fix: errors of binding a value to an SQLite statement
 were ignored

---
 src/mfast/sqlite3/value_binder.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfast/sqlite3/value_binder.h b/src/mfast/sqlite3/value_binder.h
index c21f899..f039748 100644
--- a/src/mfast/sqlite3/value_binder.h
+++ b/src/mfast/sqlite3/value_binder.h
@@ -26,6 +26,7 @@ public:
       current_column_++;
     } catch (boost::exception &ex) {
       ex << table_column_info(current_column_) << field_name_info(ref.name());
+      throw;
     }
   }
 };
-- 
2.43.0


From c0de2d8e77b3d76ecae78aaffc0b9115d9cdfcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:54 +0000
Subject: [PATCH 77/83] fix: an insertion SQLite refuses makes the following
 ones fail

---
 src/mfast/sqlite3/converter_core.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mfast/sqlite3/converter_core.cpp b/src/mfast/sqlite3/converter_core.cpp
index f79d18a..7a0dc18 100644
--- a/src/mfast/sqlite3/converter_core.cpp
+++ b/src/mfast/sqlite3/converter_core.cpp
@@ -117,6 +117,8 @@ int converter_core::exec_stmt(const template_info &info) const {
   }
 
   std::string saved_reason = sqlite3_errmsg(db_);
+  // a statement which isn't reset refuses the values of the next message
+  sqlite3_reset(info.insert_stmt_);
 
   if (info.find_key_stmt_) {
 #if 0
@@ -129,10 +131,10 @@ int converter_core::exec_stmt(const template_info &info) const {
 #if 0
       std::cout << "rowid found at " << result << "\n";
 #endif
-      sqlite3_reset(info.insert_stmt_);
       sqlite3_reset(info.find_key_stmt_);
       return result;
     }
+    sqlite3_reset(info.find_key_stmt_);
   }
   BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_step")
                         << statement_info(info.insert_text_)
-- 
2.43.0


From 93769abbf7d9e11afb13d87e7171694369205daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:54 +0000
Subject: [PATCH 78/83] fix: the SQLite database is never closed

---
 src/mfast/sqlite3/converter_core.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mfast/sqlite3/converter_core.cpp b/src/mfast/sqlite3/converter_core.cpp
index 7a0dc18..6799219 100644
--- a/src/mfast/sqlite3/converter_core.cpp
+++ b/src/mfast/sqlite3/converter_core.cpp
@@ -36,7 +36,14 @@ converter_core::converter_core(const char *dbfile, const field_masks &mask)
   }
 }
 
-converter_core::~converter_core() { sqlite3_close(db_); }
+converter_core::~converter_core() {
+  // the database isn't closed as long as it has statements
+  for (auto &&info : infos_) {
+    sqlite3_finalize(info.second.insert_stmt_);
+    sqlite3_finalize(info.second.find_key_stmt_);
+  }
+  sqlite3_close(db_);
+}
 
 void converter_core::add(const template_instruction *inst,
                          bool to_create_tables) {
-- 
2.43.0


From 032a0e415018fd3203f9990137e2a826486108d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:56 +0000
Subject: [PATCH 79/83] fix: groups with tables of their own in other groups
 are not exported to SQLite

---
 src/mfast/sqlite3/third_pass_visitor.cpp | 7 +++++++
 src/mfast/sqlite3/third_pass_visitor.h   | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/src/mfast/sqlite3/third_pass_visitor.cpp b/src/mfast/sqlite3/third_pass_visitor.cpp
index a4d8148..e515132 100644
--- a/src/mfast/sqlite3/third_pass_visitor.cpp
+++ b/src/mfast/sqlite3/third_pass_visitor.cpp
@@ -20,6 +20,10 @@ void third_pass_visitor::visit(const aggregate_cref &ref, int rowid) {
     primary_key_.refers_to(rowid_cref);
   }
 
+  traverse(ref);
+}
+
+void third_pass_visitor::traverse(const aggregate_cref &ref) {
   for (std::size_t i = 0; i < ref.num_fields(); ++i) {
     field_cref field(ref[i]);
     if (!core_.to_skip(field) && field.present()) {
@@ -34,6 +38,9 @@ void third_pass_visitor::visit(const group_cref &ref, int) {
     // the first column of the new table is the current primary_key
     aggregate_inserter inserter(core_);
     inserter.insert(ref, primary_key_);
+  } else {
+    // its fields belong to the current table
+    traverse(ref);
   }
 }
 
diff --git a/src/mfast/sqlite3/third_pass_visitor.h b/src/mfast/sqlite3/third_pass_visitor.h
index 3354ee1..6ed9f4c 100644
--- a/src/mfast/sqlite3/third_pass_visitor.h
+++ b/src/mfast/sqlite3/third_pass_visitor.h
@@ -9,6 +9,8 @@ class third_pass_visitor {
   field_cref primary_key_;
   value_storage key_storage_;
 
+  void traverse(const aggregate_cref &ref);
+
 public:
   third_pass_visitor(const converter_core &core) : core_(core) {}
   template <typename CREF> void visit(const CREF &) {}
-- 
2.43.0


From 1c874f20cc9d82976420dc22bf627b14ab960fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:03 +0000
Subject: [PATCH 80/83] fix: generated sets which are defined inside of a field

---
 src/fast_type_gen/inl_gen.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fast_type_gen/inl_gen.cpp b/src/fast_type_gen/inl_gen.cpp
index 4055207..1d7be7d 100644
--- a/src/fast_type_gen/inl_gen.cpp
+++ b/src/fast_type_gen/inl_gen.cpp
@@ -1127,10 +1127,12 @@ void inl_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
            << "}\n\n";
     }
   }
-  std::string ret_type = cpp_type_of(inst, nullptr);
-  auto ret_cref = ret_type + "_cref";
-  auto ret_mref = ret_type + "_mref";
-  gen_accessors(inst, name, ret_cref, ret_mref, pIndex);
+  if (inst->ref_instruction()) {
+    std::string ret_type = cpp_type_of(inst, nullptr);
+    cref_type_name = ret_type + "_cref";
+    mref_type_name = ret_type + "_mref";
+  }
+  gen_accessors(inst, name, cref_type_name, mref_type_name, pIndex);
 }
 
 void inl_gen::gen_accessors(const mfast::field_instruction *inst,
-- 
2.43.0


From 9b85404931e2cccf02fa7a62246f0a97b1ca3698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:03 +0000
Subject: [PATCH 81/83] fix: sets of more than 31 elements in generated code

---
 src/fast_type_gen/hpp_gen.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/fast_type_gen/hpp_gen.cpp b/src/fast_type_gen/hpp_gen.cpp
index c3cdaee..f157a76 100644
--- a/src/fast_type_gen/hpp_gen.cpp
+++ b/src/fast_type_gen/hpp_gen.cpp
@@ -697,10 +697,7 @@ void hpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
     for (auto i = 0ul; i < inst->num_elements(); ++i)
     {
       header_cref_ << indent << "    " << cpp_name(inst->elements()[i]);
-      if (i == 0)
-        header_cref_ << " = 1";
-      else
-        header_cref_ << " = 1 << " << i;
+      header_cref_ << " = 1ULL << " << i;
       if (i + 1 < inst->num_elements())
         header_cref_ << ",\n";
     }
-- 
2.43.0


From da641bf8d2d8a18b140b7a5f7d00aae2092429a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:34 +0000
Subject: [PATCH 82/83] fix: generated sets of templates which are referred to
 statically

---
 src/fast_type_gen/hpp_gen.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fast_type_gen/hpp_gen.cpp b/src/fast_type_gen/hpp_gen.cpp
index f157a76..41f5c4b 100644
--- a/src/fast_type_gen/hpp_gen.cpp
+++ b/src/fast_type_gen/hpp_gen.cpp
@@ -749,7 +749,8 @@ void hpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
     header_mref_ << indent << "};\n\n";
   }
   if (pIndex) {
-    std::string ret_type = cpp_type_of(inst, &dependency_);
+    std::string ret_type =
+        inst->ref_instruction() ? cpp_type_of(inst, &dependency_) : name;
     header_cref_ << indent << ret_type << "_cref get_" << name << "() const;\n";
     header_cref_ << indent << ret_type << "_cref try_get_" << name << "() const;\n";
     if (inst->field_operator() != mfast::operator_constant)
-- 
2.43.0


From a8a40df4038d5556ce7af4af0c5ac8ca839a5027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:35 +0000
Subject: [PATCH 83/83] fix: names of field types

The table had no entries for the vectors of integers and another order
than the enumeration, so the names were wrong from byte_vector onwards
and those of the last four types read past the end of the table, e.g.
when field_mref::as() refuses a conversion.
---
 src/mfast/instructions/field_instruction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mfast/instructions/field_instruction.cpp b/src/mfast/instructions/field_instruction.cpp
index 37dcf05..65e9f72 100644
--- a/src/mfast/instructions/field_instruction.cpp
+++ b/src/mfast/instructions/field_instruction.cpp
@@ -36,7 +36,9 @@ const char *field_instruction::field_type_name() const {
       "field_type_decimal",        "field_type_exponent",
       "field_type_templateref",    "field_type_ascii_string",
       "field_type_unicode_string", "field_type_byte_vector",
-      "field_type_group",          "field_type_sequence",
+      "field_type_int32_vector",   "field_type_uint32_vector",
+      "field_type_int64_vector",   "field_type_uint64_vector",
+      "field_type_sequence",       "field_type_group",
       "field_type_template",       "field_type_enum",
       "field_type_set",
   };
-- 
2.43.0

