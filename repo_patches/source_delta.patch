From 087c2e7d58592c850195308e7bb8287972283548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 01/20] fix: append_binpb wrote over the existing buffer
 content instead of after it

---
 include/hpp_proto/binpb/serialize.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/binpb/serialize.hpp b/include/hpp_proto/binpb/serialize.hpp
index a0edc97..3cc96cf 100644
--- a/include/hpp_proto/binpb/serialize.hpp
+++ b/include/hpp_proto/binpb/serialize.hpp
@@ -561,15 +561,18 @@ template <bool overwrite_buffer = true, typename T, concepts::contiguous_byte_ra
     return resize_status;
   }
 
+  // when appending, the existing content occupies everything but the last `msg_sz` bytes of the buffer
+  const std::size_t offset = overwrite_buffer ? 0 : std::ranges::size(buffer) - static_cast<std::size_t>(msg_sz);
   if (std::is_constant_evaluated()) {
-    contiguous_out archive{buffer, context};
+    contiguous_out archive{std::span{std::ranges::data(buffer), std::ranges::size(buffer)}.subspan(offset), context};
     auto cache_itr = cache.begin();
     if (!serialize(item, cache_itr, archive)) {
       return std::errc::bad_message;
     }
   } else {
-    contiguous_out archive{std::as_writable_bytes(std::span{std::ranges::data(buffer), std::ranges::size(buffer)}),
-                           context};
+    contiguous_out archive{
+        std::as_writable_bytes(std::span{std::ranges::data(buffer), std::ranges::size(buffer)}.subspan(offset)),
+        context};
     auto cache_itr = cache.begin();
     if (!serialize(item, cache_itr, archive)) {
       return std::errc::bad_message;
-- 
2.43.0


From 7f5f7e0a007adcc969ed26fdd65938d2121e3bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:17 +0000
Subject: [PATCH 02/20] fix: decode tags of field numbers at or above 2^25
 (five-byte tags)

---
 include/hpp_proto/binpb/deserialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index b55f159..0da052d 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -592,7 +592,7 @@ struct basic_in {
     maybe_advance_region();
     // Safety invariant: input regions provide at least 10 readable bytes (slope/patch buffer).
     std::int64_t res; // NOLINT(cppcoreguidelines-init-variables)
-    if (auto p = shift_mix_parse_varint<std::uint32_t, 4>(current, res); p <= current._end) {
+    if (auto p = shift_mix_parse_varint<std::uint32_t>(current, res); p <= current._end) {
       current.advance_to(p);
       return static_cast<std::uint32_t>(res);
     }
@@ -602,7 +602,7 @@ struct basic_in {
   constexpr bool match_tag(std::uint32_t tag) {
     maybe_advance_region();
     std::int64_t res; // NOLINT(cppcoreguidelines-init-variables)
-    if (auto p = shift_mix_parse_varint<std::uint32_t, 4>(current, res); p <= current._end) {
+    if (auto p = shift_mix_parse_varint<std::uint32_t>(current, res); p <= current._end) {
       if (std::cmp_equal(res, tag)) {
         current.advance_to(p);
         return true;
-- 
2.43.0


From 1c0141c252289a9d8aca7a19b4be91c0202978d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 03/20] fix: preserve unknown fields whose tag is not minimally
 encoded

---
 include/hpp_proto/binpb/deserialize.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 0da052d..7556b5e 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -145,6 +145,7 @@ struct basic_in {
   input_buffer_region<Byte> current;
   input_span<input_buffer_region<Byte>> rest;
   ptrdiff_t size_exclude_current = 0; // the remaining size excluding those in current region without slope area
+  std::size_t last_tag_size = 0;      // encoded size of the tag most recently consumed by read_tag()
   Context &context;                   // NOLINT(cppcoreguidelines-avoid-const-or-ref-data-members)
 
   constexpr static bool endian_swapped = std::endian::little != std::endian::native;
@@ -506,10 +507,11 @@ struct basic_in {
     return {};
   }
 
-  constexpr auto unwind_tag(uint32_t tag) {
-    auto tag_len = varint_size<varint_encoding::normal>(tag);
+  // Returns a copy positioned at the start of the tag just consumed by read_tag(). The tag may not be minimally
+  // encoded, so its size has to be the number of bytes actually consumed.
+  constexpr auto unwind_tag() {
     basic_in<byte_type, Context, contiguous> dup(*this);
-    dup.current.revert(tag_len);
+    dup.current.revert(last_tag_size);
     return dup;
   }
 
@@ -593,6 +595,7 @@ struct basic_in {
     // Safety invariant: input regions provide at least 10 readable bytes (slope/patch buffer).
     std::int64_t res; // NOLINT(cppcoreguidelines-init-variables)
     if (auto p = shift_mix_parse_varint<std::uint32_t>(current, res); p <= current._end) {
+      last_tag_size = static_cast<std::size_t>(p - current._begin);
       current.advance_to(p);
       return static_cast<std::uint32_t>(res);
     }
@@ -676,7 +679,7 @@ constexpr status skip_field(uint32_t tag, concepts::is_basic_in auto &archive, T
   if constexpr (std::is_empty_v<T>) {
     return do_skip_field(tag, archive);
   } else {
-    auto unwound_archive = archive.unwind_tag(tag);
+    auto unwound_archive = archive.unwind_tag();
     if (auto result = skip_fields_match_tag(tag, archive); !result.ok()) [[unlikely]] {
       return result;
     }
-- 
2.43.0


From 599b020e4dfbd76c38ebe688d12ad388fad19225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 04/20] fix: reject over-long strings and bytes in padded input
 instead of reading past its end

---
 include/hpp_proto/binpb/deserialize.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 7556b5e..bded5a4 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -499,7 +499,9 @@ struct basic_in {
 
   template <concepts::non_owning_bytes T>
   constexpr status read_bytes(uint32_t length, T &item) {
-    assert(std::cmp_greater_equal(region_size(), length));
+    if (std::cmp_less(region_size(), length)) [[unlikely]] {
+      return std::errc::bad_message;
+    }
     auto data = current.consume(length);
     using value_type = T::value_type;
     // NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast)
-- 
2.43.0


From 5e909fe375765d472bf94526888d9844ceaf9f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 05/20] fix: decoding a closed-enum oneof member threw when
 another member was set

---
 include/hpp_proto/binpb/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index bded5a4..4297ca3 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -1252,7 +1252,7 @@ constexpr status deserialize_oneof(uint32_t tag, auto &&item, concepts::is_basic
         std::variant_alternative_t<Index + 1, std::decay_t<decltype(item)>> v;
         auto result = deserialize_field(v, meta{}, tag, archive, unknown_fields);
         if (result.ok()) [[likely]] {
-          std::get<Index + 1>(item) = v;
+          item.template emplace<Index + 1>(v);
           return {};
         }
         if (result == std::errc::value_too_large) {
-- 
2.43.0


From 381a208f45b8dcfabc538fa75e8ad5048cb8c778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 06/20] fix: unknown closed-enum values in non-owning extension
 storage referred to a dead stack buffer

---
 include/hpp_proto/binpb/deserialize.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 4297ca3..26b5150 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -666,10 +666,14 @@ constexpr void deserialize_unknown_enum(auto &unknown_fields, uint32_t field_num
   } else if constexpr (concepts::uint32_pair_contiguous_range<unknown_fields_t>) {
     auto itr = std::find_if(unknown_fields.begin(), unknown_fields.end(),
                             [field_num](const auto &e) { return e.first == field_num; });
+    using bytes_type = unknown_fields_t::value_type::second_type;
     if (itr == unknown_fields.end()) {
-      unknown_fields.push_back({field_num, field_span});
+      // `data` is a local buffer, the content must be copied into the arena
+      bytes_type field_bytes;
+      decltype(auto) v = detail::as_modifiable(archive.context, field_bytes);
+      util::append_range(v, field_span);
+      unknown_fields.push_back({field_num, field_bytes});
     } else {
-      using bytes_type = unknown_fields_t::value_type::second_type;
       decltype(auto) v = detail::as_modifiable(archive.context, const_cast<bytes_type &>(itr->second));
       util::append_range(v, field_span);
     }
-- 
2.43.0


From c8f9bcce9763241f8578d0988bad6e29a02035b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 07/20] fix: base64 decoding accepted invalid characters before
 padding and mixed padding into the data

---
 include/hpp_proto/json/base64.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/json/base64.hpp b/include/hpp_proto/json/base64.hpp
index c0ba9c7..9c24534 100644
--- a/include/hpp_proto/json/base64.hpp
+++ b/include/hpp_proto/json/base64.hpp
@@ -186,7 +186,8 @@ struct base64 {
         return false;
       }
 
-      uint32_t const triple = (a << 18U) + (b << 12U) + (c << 6U) + d;
+      // '=' maps to 64, the padding must not contribute to the decoded bits
+      uint32_t const triple = (a << 18U) + (b << 12U) + ((c & 0x3FU) << 6U) + (d & 0x3FU);
       write_decoded_bytes(triple, decoded, j, len);
     }
     // NOLINTEND(cppcoreguidelines-pro-bounds-constant-array-index)
@@ -199,6 +200,9 @@ struct base64 {
                                                     uint8_t ch_d, auto &source_begin, auto const &source_end) noexcept {
     if ((a | b | c | d) >= 64) {
       // Invalid character found. It might be padding.
+      if ((a | b) >= 64) {
+        return false; // only the last two characters can be padding
+      }
       if (ch_d == '=' && ch_c == '=') { // XY==
         if (source_begin != source_end) {
           return false; // padding must be at the end
@@ -210,7 +214,7 @@ struct base64 {
         if (source_begin != source_end) {
           return false;
         }
-        if (d != 64) {
+        if (c >= 64 || d != 64) {
           return false;
         }
       } else {
-- 
2.43.0


From d134b0af80b190134a1328f199a69d15cc1a0ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 08/20] fix: timestamp decoding accepted minus signs inside the
 time and fraction

---
 include/hpp_proto/json/timestamp_codec.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/json/timestamp_codec.hpp b/include/hpp_proto/json/timestamp_codec.hpp
index 506cec4..92cf271 100644
--- a/include/hpp_proto/json/timestamp_codec.hpp
+++ b/include/hpp_proto/json/timestamp_codec.hpp
@@ -47,7 +47,7 @@ private:
   static bool parse_with_separator(const char *&ptr, const char *end, int32_t &val, std::ptrdiff_t width,
                                    separator sep) {
     const auto remaining = std::distance(ptr, end);
-    if (remaining < width) {
+    if (remaining < width || *ptr == '-') { // std::from_chars accepts a minus sign
       return false;
     }
     const auto *const next = std::next(ptr, width);
@@ -97,7 +97,7 @@ private:
     ptr = std::next(ptr);
 
     const std::string_view nanos_sv{ptr, static_cast<std::size_t>(std::distance(ptr, end))};
-    if (nanos_sv.empty() || nanos_sv.length() > 9) {
+    if (nanos_sv.empty() || nanos_sv.length() > 9 || nanos_sv.front() == '-') {
       return false;
     }
 
-- 
2.43.0


From c8a85ab13e4ca92e2ba802461a76ed21bb96d007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 09/20] fix: unescape the default values of bytes fields in
 generated code

---
 src/protoc-plugin/hpp_generator.cpp | 35 +++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index f842518..f492045 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -80,6 +80,37 @@ cpp::identifier cpp_identifier(std::string_view name, generation_diagnostics &di
   return cpp::identifier::from_protobuf_namespace("invalid_cpp_identifier").value();
 }
 
+// FieldDescriptorProto::default_value holds the C-escaped spelling for bytes fields.
+std::string c_unescape(std::string_view escaped) {
+  constexpr std::string_view octal_digits = "01234567";
+  constexpr std::string_view escape_chars = "abfnrtv";
+  constexpr std::string_view escape_values = "\a\b\f\n\r\t\v";
+  constexpr unsigned octal_radix = 8;
+  constexpr std::size_t max_octal_digits = 3;
+
+  std::string result;
+  result.reserve(escaped.size());
+  while (!escaped.empty()) {
+    const char c = escaped.front();
+    escaped.remove_prefix(1);
+    if (c != '\\' || escaped.empty()) {
+      result.push_back(c);
+    } else if (octal_digits.contains(escaped.front())) {
+      unsigned value = 0;
+      for (std::size_t i = 0; i < max_octal_digits && !escaped.empty() && octal_digits.contains(escaped.front()); ++i) {
+        value = (value * octal_radix) + static_cast<unsigned>(escaped.front() - '0');
+        escaped.remove_prefix(1);
+      }
+      result.push_back(static_cast<char>(static_cast<unsigned char>(value)));
+    } else {
+      const auto pos = escape_chars.find(escaped.front());
+      result.push_back(pos == std::string_view::npos ? escaped.front() : escape_values[pos]);
+      escaped.remove_prefix(1);
+    }
+  }
+  return result;
+}
+
 bool is_generator_namespace_helper(const cpp::identifier &name) {
   return name.view() == "message_type_url" || name.view() == "pb_meta" || name.view() == "is_valid";
 }
@@ -351,8 +382,8 @@ struct hpp_addons {
 
     void set_bytes_default_value(const FieldDescriptorProto &proto) {
       if (!proto.default_value.empty()) {
-        default_value_template_arg =
-            cpp::format("::hpp_proto::bytes_literal<{}>{{}}", cpp::string_literal_bytes{proto.default_value});
+        default_value_template_arg = cpp::format("::hpp_proto::bytes_literal<{}>{{}}",
+                                                 cpp::string_literal_bytes{c_unescape(proto.default_value)});
         default_value = default_value_template_arg;
       }
     }
-- 
2.43.0


From a07d24f4826d0ad33b0ebabe61b78edf13e20ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 10/20] fix: string_literal to std::string conversion stopped
 at the first NUL

---
 include/hpp_proto/field_types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/field_types.hpp b/include/hpp_proto/field_types.hpp
index b47652b..ed2b701 100644
--- a/include/hpp_proto/field_types.hpp
+++ b/include/hpp_proto/field_types.hpp
@@ -536,7 +536,7 @@ struct string_literal {
   // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
   [[nodiscard]] constexpr const char *end() const { return str.data() + size(); }
 
-  explicit operator std::string() const { return std::string{data()}; }
+  explicit operator std::string() const { return std::string{data(), size()}; }
   constexpr operator std::string_view() const { return std::string_view(data(), size()); }
 
   friend constexpr bool operator==(const string_literal &lhs, const std::string &rhs) {
-- 
2.43.0


From eff36d33eb94e6d0838f1a4de36ddc0b65396a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:22 +0000
Subject: [PATCH 11/20] fix: merging messages dropped the destination's unknown
 fields

---
 include/hpp_proto/merge.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hpp_proto/merge.hpp b/include/hpp_proto/merge.hpp
index ac8e006..1631c6f 100644
--- a/include/hpp_proto/merge.hpp
+++ b/include/hpp_proto/merge.hpp
@@ -306,6 +306,12 @@ struct message_merger {
         // Protobuf merge semantics preserve those occurrences in parent-to-child order.
         util::append_range(bytes, data);
       }
+    } else if constexpr (concepts::pb_unknown_fields<T> && (!concepts::dynamic_sized_view<decltype(dest.fields)> ||
+                                                           requires { ctx.memory_resource(); })) {
+      // Unknown fields are raw wire bytes; merging keeps those of both messages.
+      bind_empty_container_to_context(dest.fields);
+      decltype(auto) bytes = detail::as_modifiable(ctx, dest.fields);
+      util::append_range(bytes, source.fields);
     } else {
       perform(dest.fields, source.fields);
     }
-- 
2.43.0


From 265d6d3b5bd5e1601d18dcfb2979c8aefb0a6598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:30 +0000
Subject: [PATCH 12/20] fix: reject tags and length prefixes that do not fit in
 32 bits instead of truncating them

---
 include/hpp_proto/binpb/deserialize.hpp       | 23 +++++++++++++++----
 .../dynamic_message/pb_serializer_ext.hpp     |  4 ++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 26b5150..4bb4364 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -286,6 +286,18 @@ struct basic_in {
     return std::errc::bad_message;
   }
 
+  // Unlike the value of a varint field, a length prefix is never truncated: one that does not fit 32 bits is an error.
+  constexpr status deserialize_length(vuint32_t &len) {
+    std::int64_t res; // NOLINT(cppcoreguidelines-init-variables)
+    if (auto p = shift_mix_parse_varint<std::uint32_t>(current, res);
+        p <= current._end && std::in_range<std::uint32_t>(res)) [[likely]] {
+      current.advance_to(p);
+      len = static_cast<std::uint32_t>(res);
+      return {};
+    }
+    return std::errc::bad_message;
+  }
+
   // Helper: append raw data path for packed deserialization (no byte-swap required)
   template <typename ValueType>
   constexpr status do_deserialize_packed_append_raw(std::size_t n, auto &item, std::size_t nbytes,
@@ -454,7 +466,7 @@ struct basic_in {
 
   constexpr status skip_length_delimited() {
     vuint32_t len;
-    if (auto result = deserialize(len); !result.ok()) [[unlikely]] {
+    if (auto result = deserialize_length(len); !result.ok()) [[unlikely]] {
       return result;
     }
     return skip(len.value);
@@ -596,7 +608,8 @@ struct basic_in {
     maybe_advance_region();
     // Safety invariant: input regions provide at least 10 readable bytes (slope/patch buffer).
     std::int64_t res; // NOLINT(cppcoreguidelines-init-variables)
-    if (auto p = shift_mix_parse_varint<std::uint32_t>(current, res); p <= current._end) {
+    if (auto p = shift_mix_parse_varint<std::uint32_t>(current, res);
+        p <= current._end && std::in_range<std::uint32_t>(res)) {
       last_tag_size = static_cast<std::size_t>(p - current._begin);
       current.advance_to(p);
       return static_cast<std::uint32_t>(res);
@@ -826,7 +839,7 @@ constexpr status deserialize_packed_repeated(Meta meta, auto &&item, Archive &ar
                          value_type, typename Meta::type>;
 
   vuint32_t byte_count;
-  if (auto result = archive(byte_count); !result.ok()) [[unlikely]] {
+  if (auto result = archive.deserialize_length(byte_count); !result.ok()) [[unlikely]] {
     return result;
   }
 
@@ -1375,7 +1388,7 @@ constexpr status deserialize(auto &&item, concepts::is_basic_in auto &archive) {
 
 constexpr status deserialize_sized(auto &&item, concepts::is_basic_in auto &archive) {
   vuint32_t len;
-  if (auto result = archive(len); !result.ok()) [[unlikely]] {
+  if (auto result = archive.deserialize_length(len); !result.ok()) [[unlikely]] {
     return result;
   }
   if constexpr (requires { item.is_map_entry(); }) {
@@ -1405,7 +1418,7 @@ constexpr status extract_length_delimited_field(uint32_t number, bytes_view &byt
         return std::errc::bad_message;
       }
       vuint32_t len;
-      if (auto result = archive(len); !result.ok() || len == 0) [[unlikely]] {
+      if (auto result = archive.deserialize_length(len); !result.ok() || len == 0) [[unlikely]] {
         return result;
       }
 
diff --git a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
index aaff309..82fe310 100644
--- a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
+++ b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
@@ -121,7 +121,7 @@ struct field_deserializer {
       return std::errc::bad_message;
     }
     vuint32_t byte_count;
-    if (auto result = archive(byte_count); !result.ok()) [[unlikely]] {
+    if (auto result = archive.deserialize_length(byte_count); !result.ok()) [[unlikely]] {
       return result;
     }
     if (byte_count == 0) {
@@ -287,7 +287,7 @@ struct field_deserializer {
   template <typename EncodeType>
   status deserialize_packed_repeated(concepts::resizable auto &&mref) {
     vuint32_t byte_count;
-    if (auto result = archive(byte_count); !result.ok()) [[unlikely]] {
+    if (auto result = archive.deserialize_length(byte_count); !result.ok()) [[unlikely]] {
       return result;
     }
     if (byte_count == 0) {
-- 
2.43.0


From 442cfbf5e9062329257d95581e857bc5a4e8f888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:44 +0000
Subject: [PATCH 13/20] fix: 32-bit varint fields take the low 32 bits of
 longer varints

---
 include/hpp_proto/binpb/varint.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/binpb/varint.hpp b/include/hpp_proto/binpb/varint.hpp
index 420a2db..dbbc51d 100644
--- a/include/hpp_proto/binpb/varint.hpp
+++ b/include/hpp_proto/binpb/varint.hpp
@@ -324,14 +324,18 @@ template <concepts::varint VarintType>
 [[nodiscard]] constexpr auto unchecked_parse_varint(concepts::contiguous_byte_range auto const &input,
                                                     VarintType &item) {
   int64_t res; // NOLINT(cppcoreguidelines-init-variables)
+  // A 32-bit field takes the low 32 bits of whatever varint is on the wire, which may be up to ten bytes long; only the
+  // signed instantiation reads those.
+  using value_type = typename VarintType::value_type;
+  using parse_type = std::conditional_t<std::same_as<value_type, uint32_t>, int32_t, value_type>;
   if constexpr (varint_encoding::zig_zag == VarintType::encoding) {
-    auto p = shift_mix_parse_varint<typename VarintType::value_type>(input, res);
-    auto ures = static_cast<uint64_t>(res);
+    auto p = shift_mix_parse_varint<parse_type>(input, res);
+    auto ures = static_cast<uint64_t>(static_cast<std::make_unsigned_t<value_type>>(res));
     auto sign = static_cast<int64_t>(ures & 0x1ULL);
     item = static_cast<VarintType::value_type>((ures >> 1U) ^ static_cast<uint64_t>(-sign));
     return p;
   } else {
-    auto p = shift_mix_parse_varint<typename VarintType::value_type>(input, res);
+    auto p = shift_mix_parse_varint<parse_type>(input, res);
     item = static_cast<VarintType::value_type>(res);
     return p;
   }
-- 
2.43.0


From fd5df4c10b9d2913e6de4216bef20a3733acbac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:15 +0000
Subject: [PATCH 14/20] fix: negative zero in a field without presence was
 dropped

---
 include/hpp_proto/field_types.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hpp_proto/field_types.hpp b/include/hpp_proto/field_types.hpp
index ed2b701..2598541 100644
--- a/include/hpp_proto/field_types.hpp
+++ b/include/hpp_proto/field_types.hpp
@@ -25,6 +25,7 @@
 #include <algorithm>
 #include <bit>
 #include <cassert>
+#include <cmath>
 #include <compare>
 #include <concepts>
 #include <cstdint>
@@ -570,6 +571,8 @@ constexpr bool is_default_value(const T &val) {
       return !val.has_value();
     } else if constexpr (std::is_class_v<T>) {
       return false;
+    } else if constexpr (std::is_floating_point_v<T>) {
+      return val == T{} && !std::signbit(val); // -0.0 is not the default value
     } else {
       return val == T{};
     }
-- 
2.43.0


From 82d08f7e5aa4c869edbfacd802b5ed791f8db838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:51 +0000
Subject: [PATCH 15/20] fix: reject field number zero inside an unknown group

---
 include/hpp_proto/binpb/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 4bb4364..fe8782c 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -711,7 +711,7 @@ constexpr status skip_field(uint32_t tag, concepts::is_basic_in auto &archive, T
 }
 
 constexpr status do_skip_field(uint32_t tag, concepts::is_basic_in auto &archive) {
-  if (tag == 0) [[unlikely]] {
+  if (tag_number(tag) == 0) [[unlikely]] {
     return std::errc::bad_message;
   }
   switch (hpp_proto::tag_type(tag)) {
-- 
2.43.0


From 6abecf964970bf3f536acc4e6ff44f922b76cebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 16/20] fix: move assignment of optional_indirect/indirect from
 a part of its own object read freed memory

---
 include/hpp_proto/indirect.hpp          | 14 ++++++++++----
 include/hpp_proto/optional_indirect.hpp | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/hpp_proto/indirect.hpp b/include/hpp_proto/indirect.hpp
index d91dc2f..1eabe1d 100644
--- a/include/hpp_proto/indirect.hpp
+++ b/include/hpp_proto/indirect.hpp
@@ -116,19 +116,25 @@ public:
     if (this == &other) {
       return *this;
     }
+    // `other` may live inside the object owned by *this, so its content has to be taken out before that object is
+    // destroyed.
     if constexpr (allocator_traits::propagate_on_container_move_assignment::value) {
+      auto new_alloc = std::move(other.alloc_);
+      auto new_obj = std::exchange(other.obj_, nullptr);
       destroy();
-      alloc_ = std::move(other.alloc_);
-      obj_ = std::exchange(other.obj_, nullptr);
+      alloc_ = std::move(new_alloc);
+      obj_ = new_obj;
       return *this;
     } else if constexpr (allocator_traits::is_always_equal::value) {
+      auto new_obj = std::exchange(other.obj_, nullptr);
       destroy();
-      obj_ = std::exchange(other.obj_, nullptr);
+      obj_ = new_obj;
       return *this;
     } else {
       if (alloc_ == other.alloc_) {
+        auto new_obj = std::exchange(other.obj_, nullptr);
         destroy();
-        obj_ = std::exchange(other.obj_, nullptr);
+        obj_ = new_obj;
         return *this;
       }
       if (obj_) {
diff --git a/include/hpp_proto/optional_indirect.hpp b/include/hpp_proto/optional_indirect.hpp
index 4dd4496..4cc40b6 100644
--- a/include/hpp_proto/optional_indirect.hpp
+++ b/include/hpp_proto/optional_indirect.hpp
@@ -101,19 +101,25 @@ public:
     if (this == &other) {
       return *this;
     }
+    // `other` may live inside the object owned by *this (e.g. `node.next = std::move(node.next->next)`), so its
+    // content has to be taken out before that object is destroyed.
     if constexpr (allocator_traits::propagate_on_container_move_assignment::value) {
+      auto new_alloc = std::move(other.alloc_);
+      auto new_obj = std::exchange(other.obj_, nullptr);
       reset();
-      alloc_ = std::move(other.alloc_);
-      obj_ = std::exchange(other.obj_, nullptr);
+      alloc_ = std::move(new_alloc);
+      obj_ = new_obj;
       return *this;
     } else if constexpr (allocator_traits::is_always_equal::value) {
+      auto new_obj = std::exchange(other.obj_, nullptr);
       reset();
-      obj_ = std::exchange(other.obj_, nullptr);
+      obj_ = new_obj;
       return *this;
     } else {
       if (alloc_ == other.alloc_) {
+        auto new_obj = std::exchange(other.obj_, nullptr);
         reset();
-        obj_ = std::exchange(other.obj_, nullptr);
+        obj_ = new_obj;
         return *this;
       }
       if (other.obj_) {
-- 
2.43.0


From b6b2721cadc3ea70676fb90b3bd5e9516b36b82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 17/20] fix: swap of optional_indirect/indirect with
 propagating unequal allocators freed blocks to the wrong allocator

---
 include/hpp_proto/indirect.hpp          | 4 ++--
 include/hpp_proto/optional_indirect.hpp | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/indirect.hpp b/include/hpp_proto/indirect.hpp
index 1eabe1d..f22dde4 100644
--- a/include/hpp_proto/indirect.hpp
+++ b/include/hpp_proto/indirect.hpp
@@ -191,8 +191,8 @@ public:
     using std::swap;
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       swap(alloc_, other.alloc_);
-    }
-    if constexpr (allocator_traits::is_always_equal::value) {
+      swap(obj_, other.obj_);
+    } else if constexpr (allocator_traits::is_always_equal::value) {
       swap(obj_, other.obj_);
     } else {
       if (alloc_ == other.alloc_) {
diff --git a/include/hpp_proto/optional_indirect.hpp b/include/hpp_proto/optional_indirect.hpp
index 4cc40b6..ee1fd24 100644
--- a/include/hpp_proto/optional_indirect.hpp
+++ b/include/hpp_proto/optional_indirect.hpp
@@ -215,6 +215,8 @@ public:
     using std::swap;
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       swap(alloc_, other.alloc_);
+      swap(obj_, other.obj_);
+      return;
     }
     if constexpr (allocator_traits::is_always_equal::value) {
       swap(obj_, other.obj_);
-- 
2.43.0


From ad9bbe874619c5c834f52a725cf7920662ee1016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 18/20] fix: setting an extension to an empty list, or again on
 view storage, kept the earlier value

---
 include/hpp_proto/binpb.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/binpb.hpp b/include/hpp_proto/binpb.hpp
index 46fc8df..7c867b7 100644
--- a/include/hpp_proto/binpb.hpp
+++ b/include/hpp_proto/binpb.hpp
@@ -329,10 +329,25 @@ struct extension_base { // NOLINT(bugprone-crtp-constructor-accessibility)
       return result;
     }
 
-    if (data.size()) {
-      if constexpr (concepts::associative_container<fields_type>) {
+    if constexpr (concepts::associative_container<fields_type>) {
+      if (data.size()) {
         fields[number()] = std::move(data);
       } else {
+        fields.erase(number());
+      }
+    } else {
+      if (in(extendee)) {
+        // replace the previous value, the entries of the other extensions keep their order
+        fields_type others{};
+        {
+          decltype(auto) modifiable = detail::as_modifiable(ctx, others);
+          modifiable.reserve(fields.size());
+          std::ranges::copy_if(fields, std::back_inserter(modifiable),
+                               [](const auto &item) { return item.first != number(); });
+        }
+        fields = std::move(others);
+      }
+      if (data.size()) {
         detail::as_modifiable(ctx, fields).emplace_back(number(), data);
       }
     }
-- 
2.43.0


From f56105bf27843219141738a6c060f821f7276cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 19/20] fix: declared defaults of string and bytes fields
 without optional wrapper were dropped or ended at the first NUL

---
 src/protoc-plugin/hpp_generator.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index f492045..dfe2717 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -391,7 +391,10 @@ struct hpp_addons {
     void set_string_default_value(const FieldDescriptorProto &proto) {
       if (!proto.default_value.empty()) {
         const cpp::string_literal_bytes literal{proto.default_value};
-        default_value = cpp::format("{}", literal);
+        // an initializer without the size would end at the first NUL
+        default_value = proto.default_value.contains('\0')
+                            ? cpp::format("{{{}, {}}}", literal, proto.default_value.size())
+                            : cpp::format("{}", literal);
         default_value_template_arg = cpp::format("::hpp_proto::string_literal<{}>{{}}", literal);
       }
     }
@@ -1362,11 +1365,12 @@ struct msg_code_generator : code_generator {
     cpp::source_fragment initializer{" = {}"};
     using enum FieldDescriptorProto::Type;
 
-    if (field_type_wrapper(descriptor).size() > 1 || descriptor.proto().type == TYPE_STRING ||
-        descriptor.proto().type == TYPE_BYTES) {
+    if (field_type_wrapper(descriptor).size() > 1) {
       initializer = {};
     } else if (!descriptor.default_value.empty()) {
       initializer = cpp::format(" = {}", descriptor.default_value);
+    } else if (descriptor.proto().type == TYPE_STRING || descriptor.proto().type == TYPE_BYTES) {
+      initializer = {};
     }
     cpp::emit_to(target, "{}{} {}{};\n", source_indent(), field_type(descriptor), descriptor.cpp_name, initializer);
   }
-- 
2.43.0


From 04be716b47a5f7ddbf0c7185fcbf4093206bc0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:44 +0000
Subject: [PATCH 20/20] fix: merge() did not compile for messages with a
 recursive oneof member (indirect alternative)

---
 include/hpp_proto/merge.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/hpp_proto/merge.hpp b/include/hpp_proto/merge.hpp
index 1631c6f..f3129b6 100644
--- a/include/hpp_proto/merge.hpp
+++ b/include/hpp_proto/merge.hpp
@@ -166,6 +166,17 @@ struct message_merger {
     }
   }
 
+  // a oneof member of a recursive message type
+  template <concepts::indirect T, typename U>
+    requires concepts::has_meta<typename T::value_type>
+  constexpr void perform(T &dest, U &&source) {
+    if constexpr (concepts::has_meta<std::decay_t<U>>) {
+      perform(*dest, std::forward<U>(source));
+    } else {
+      perform(*dest, *std::forward<U>(source));
+    }
+  }
+
   template <concepts::repeated T, typename U>
     requires(std::convertible_to<typename U::value_type, std::remove_const_t<typename T::value_type>> &&
              !std::is_lvalue_reference_v<U>)
-- 
2.43.0

