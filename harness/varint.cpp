//@file optional=1
// Contracts of the varint primitives themselves (internal entry points; complete over the full value domain).
#include "schema.hpp"
using namespace hpp_proto;
namespace {
template <typename V> void enc(typename V::encode_type v0, std::uint64_t wire) {
  V v{static_cast<typename V::value_type>(v0)};
  std::byte out[10];
  std::byte *e = unchecked_pack_varint(v, &out[0]);
  auto n = static_cast<std::size_t>(e - &out[0]);
  vp_assert(n == spec_varint_len(wire), "length is the canonical (minimal) length");
  vp_assert(v.encode_size() == n, "encode_size() equals bytes produced");
  for (unsigned i = 0; i < n; i++)
    vp_assert(static_cast<std::uint8_t>(out[i]) == spec_varint_byte(wire, i, static_cast<unsigned>(n)), "byte matches spec");
  vp_cover("end");
}
struct region {
  using value_type = std::byte;
  const std::byte *b, *e;
  const std::byte *data() const { return b; }
  const std::byte *begin() const { return b; }
  const std::byte *end() const { return e; }
  std::size_t size() const { return static_cast<std::size_t>(e - b); }
};
// decode contract: n bytes of continuation then a terminator; input slack as the library guarantees (>= 10 readable)
template <typename V> void dec() {
  std::byte in[16];
  vp_bytes(in, 16, "in");
  const std::uint64_t avail = vp_size("avail", 16);
  region r{&in[0], &in[0] + avail};
  unsigned n = 0;
  while (n < 10 && (static_cast<std::uint8_t>(in[n]) & 0x80))
    n++;
  V v{};
  const std::byte *p = unchecked_parse_varint(r, v);
  if (n == 10) {
    vp_assert(p == r.e + 1, "unterminated varint is rejected");
    vp_cover("unterminated");
    return;
  }
  const unsigned len = n + 1;
  constexpr bool narrow = sizeof(typename V::value_type) == 4;
  vp_assert(p == r.b + len, "consumes exactly the encoded length");
  std::uint64_t w = spec_varint_value(reinterpret_cast<const std::uint8_t *>(&in[0]), len);
  if constexpr (V::encoding == varint_encoding::zig_zag) {
    if constexpr (narrow) {
      auto x = static_cast<std::uint32_t>(w);
      vp_assert(v.value == static_cast<std::int32_t>((x >> 1) ^ (0U - (x & 1))), "zigzag value");
    } else {
      vp_assert(v.value == static_cast<std::int64_t>((w >> 1) ^ (0ULL - (w & 1))), "zigzag value");
    }
  } else {
    vp_assert(v.value == static_cast<typename V::value_type>(w), "value is the sum of the 7-bit groups, truncated");
  }
  vp_cover("end");
}
} // namespace
//@ props=P01
// unchecked_pack_varint<vuint64_t>: canonical bytes and encode_size for every uint64
VP_HARNESS(h_enc_u64) { auto v = vp_u64("v"); enc<vuint64_t>(v, v); }
//@ props=P01
VP_HARNESS(h_enc_i64) { auto v = static_cast<std::int64_t>(vp_u64("v")); enc<vint64_t>(v, static_cast<std::uint64_t>(v)); }
//@ props=P01
VP_HARNESS(h_enc_u32) { auto v = vp_u32("v"); enc<vuint32_t>(v, v); }
//@ props=P01
VP_HARNESS(h_enc_s64) { auto v = static_cast<std::int64_t>(vp_u64("v")); enc<vsint64_t>(v, spec_zigzag64(v)); }
//@ props=P01
VP_HARNESS(h_enc_s32) { auto v = static_cast<std::int32_t>(vp_u32("v")); enc<vsint32_t>(v, spec_zigzag32(v)); }
//@ props=P02 covers=end,unterminated
// unchecked_parse_varint: for every 16-byte window and every claimed region end
VP_HARNESS(h_dec_u64) { dec<vuint64_t>(); }
//@ props=P02 covers=end,unterminated
VP_HARNESS(h_dec_i64) { dec<vint64_t>(); }
//@ props=P02 covers=end,unterminated
VP_HARNESS(h_dec_i32) { dec<vint32_t>(); }
//@ props=P02 covers=end,unterminated
VP_HARNESS(h_dec_u32) { dec<vuint32_t>(); }
//@ props=P02 covers=end,unterminated
VP_HARNESS(h_dec_s64) { dec<vsint64_t>(); }
//@ props=P02 covers=end,unterminated
VP_HARNESS(h_dec_s32) { dec<vsint32_t>(); }
//@ props=P02 covers=end,unterminated
// unchecked_parse_bool: any nonzero payload bit means true
VP_HARNESS(h_dec_bool) {
  std::byte in[16];
  vp_bytes(in, 16, "in");
  region r{&in[0], &in[0] + 16};
  unsigned n = 0;
  bool any = false;
  while (n < 10 && (static_cast<std::uint8_t>(in[n]) & 0x80)) {
    any = any || (static_cast<std::uint8_t>(in[n]) & 0x7f);
    n++;
  }
  bool v = false;
  const std::byte *p = unchecked_parse_bool(r, v);
  if (n == 10) {
    vp_assert(p == r.e + 1, "unterminated bool is rejected");
    vp_cover("unterminated");
    return;
  }
  any = any || (static_cast<std::uint8_t>(in[n]) & (n == 9 ? 0x01 : 0x7f));
  vp_assert(p == r.b + n + 1, "consumes exactly the encoded length");
  vp_assert(v == any, "true iff any payload bit is set");
  vp_cover("end");
}
