// Base64: encode against the RFC 4648 definition, decode as its exact inverse, rejection of everything else.
#include "vp.hpp"
#include <hpp_proto/field_types.hpp>
#include <hpp_proto/json/base64.hpp>
namespace hp = hpp_proto;
namespace {
struct no_ctx {};
constexpr std::array<char, 64> digits = [] { // the alphabet, by definition
  std::array<char, 64> d{};
  for (unsigned v = 0; v < 64; ++v)
    d[v] = static_cast<char>(v < 26 ? 'A' + v : v < 52 ? 'a' + (v - 26) : v < 62 ? '0' + (v - 52) : v == 62 ? '+' : '/');
  return d;
}();
constexpr std::array<unsigned char, 256> values = [] { // its inverse; 64 = foreign
  std::array<unsigned char, 256> t{};
  for (auto &x : t) x = 64;
  for (unsigned v = 0; v < 64; ++v) t[static_cast<unsigned char>(digits[v])] = static_cast<unsigned char>(v);
  return t;
}();
char digit(std::uint32_t v) { return digits[v & 63]; }
std::uint32_t value_of(unsigned char c) { return values[c]; }
// the character at position k of the encoding of s[0..n)
char spec_char(const unsigned char *s, std::size_t n, std::size_t k) {
  std::size_t i = k / 4 * 3;
  std::uint32_t a = s[i], b = i + 1 < n ? s[i + 1] : 0, c = i + 2 < n ? s[i + 2] : 0;
  switch (k % 4) {
  case 0: return digit(a >> 2);
  case 1: return digit((a & 3) << 4 | b >> 4);
  case 2: return i + 1 < n ? digit((b & 15) << 2 | c >> 6) : '=';
  default: return i + 2 < n ? digit(c & 63) : '=';
  }
}
template <typename C> void roundtrip(std::size_t n) {
  using B = typename C::value_type;
  C src(n, B{});
  vp_bytes(src.data(), n, "source");
  const auto *u = reinterpret_cast<const unsigned char *>(src.data());
  const std::size_t len = (n + 2) / 3 * 4;
  vp_assert(hp::base64::max_encode_size(src) == len, "the predicted length is the length of the encoding");
  std::string out(len, '#');
  vp_freeze_ro(src.data());
  std::int64_t r = hp::base64::encode(src, out);
  vp_assert(r == static_cast<std::int64_t>(len), "encode returns the length written");
  bool same = true;
  for (std::size_t k = 0; k < len; ++k)
    same &= out[k] == spec_char(u, n, k);
  vp_assert(same, "every character is the one RFC 4648 defines");
  C back;
  no_ctx ctx;
  bool ok = hp::base64::decode(out, back, ctx);
  vp_assert(ok, "decode accepts every encoding");
  vp_assert(back.size() == n, "decode restores the length");
  same = true;
  for (std::size_t k = 0; k < n; ++k)
    same &= back[k] == src[k];
  vp_assert(same, "decode restores every byte");
  vp_cover("end");
}
// cases 0..31 are those lengths, 32 and 33 two blocks of 24 bytes with and without a remainder, then the rest
std::size_t size_of_case(std::uint64_t c) { return c < 32 ? c : c == 32 ? 48 : c == 33 ? 50 : c - 2; }
// decode of an arbitrary text of m characters
template <typename C> void arbitrary_text(std::size_t m) {
  std::string t(m, 'x');
  vp_bytes(t.data(), m, "text");
  bool valid = m % 4 == 0;
  std::size_t pad = 0;
  if (valid && m != 0) {
    if (t[m - 1] == '=') pad = t[m - 2] == '=' ? 2 : 1;
    for (std::size_t k = 0; k < m - pad; ++k)
      valid &= value_of(static_cast<unsigned char>(t[k])) != 64;
  }
  C v{typename C::value_type(1), typename C::value_type(2), typename C::value_type(3)}; // old content must go
  no_ctx ctx;
  vp_freeze_ro(t.data());
  bool ok = hp::base64::decode(t, v, ctx);
  if (!valid) {
    vp_assert(!ok, "text that is not base64 is rejected");
    vp_cover("rejected");
    return;
  }
  std::uint32_t last = 0;
  if (m != 0 && pad != 0) last = value_of(static_cast<unsigned char>(t[m - pad - 1])) & (pad == 2 ? 15u : 3u);
  if (last == 0) // (decoders may or may not accept non-zero unused bits)
    vp_assert(ok, "base64 text is accepted");
  if (!ok) return;
  vp_assert(v.size() == m / 4 * 3 - pad, "length of the decoded bytes");
  for (std::size_t k = 0; k < v.size(); ++k) {
    std::size_t q = k / 3 * 4 + k % 3;
    std::uint32_t h = value_of(static_cast<unsigned char>(t[q])), l = value_of(static_cast<unsigned char>(t[q + 1]));
    unsigned sh = 2 * static_cast<unsigned>(k % 3);
    auto b = static_cast<unsigned char>((h << (2 + sh)) | (l >> (4 - sh)));
    vp_assert(static_cast<unsigned char>(v[k]) == b, "every decoded byte is the one the text denotes");
  }
  vp_cover("accepted");
}
} // namespace

//@ props=P19 bound="lengths 0..31, 48, 50" tbound="up to 73 bytes" cases=34 tcases=76 covers=end cost=30 t=240
// encode = RFC 4648, decode(encode(x)) = x, exact length; every length n < 32 (the block of 24 and every remainder)
VP_HARNESS(h_base64_roundtrip_string) { roundtrip<std::string>(size_of_case(vp_case(76))); }
//@ props=P19 bound="lengths 0..31, 48, 50" tbound="up to 73 bytes" cases=34 tcases=76 covers=end cost=30 t=240
VP_HARNESS(h_base64_roundtrip_bytes) { roundtrip<std::vector<std::byte>>(size_of_case(vp_case(76))); }
//@ props=P19 bound="texts up to 13 characters" tbound="texts up to 21 characters" cases=14 tcases=22 covers=accepted,rejected cost=20
// decode accepts exactly the base64 texts and returns the denoted bytes
VP_HARNESS(h_base64_decode_any) { arbitrary_text<std::vector<std::byte>>(vp_case(22)); }
//@ props=P19 bound="texts up to 13 characters" tbound="texts up to 21 characters" cases=14 tcases=22 covers=accepted,rejected cost=20
VP_HARNESS(h_base64_decode_any_string) { arbitrary_text<std::string>(vp_case(22)); }
