// Message types used by the harnesses.  They have exactly the shape protoc-gen-hpp emits.
#pragma once
#include "vp.hpp"
#include <hpp_proto/binpb.hpp>
namespace hp = hpp_proto;
using fo = hp::field_option;
inline constexpr auto NONE = fo::none;
inline constexpr auto EXPL = fo::explicit_presence;
inline constexpr auto PACKED = fo::is_packed;

template <typename T, fo Opt, typename Enc = void, std::uint32_t Num = 1, auto Def = std::monostate{}>
struct One {
  using hpp_proto_traits_type = hp::default_traits;
  T f{};
  bool operator==(const One &) const = default;
};
template <typename T, fo Opt, typename Enc, std::uint32_t Num, auto Def>
auto pb_meta(const One<T, Opt, Enc, Num, Def> &) -> std::tuple<hp::field_meta<Num, &One<T, Opt, Enc, Num, Def>::f, Opt, Enc, Def>>;
template <typename T, fo Opt, typename Enc, std::uint32_t Num, auto Def>
constexpr auto message_type_url(const One<T, Opt, Enc, Num, Def> &) {
  return hp::string_literal<"type.googleapis.com/vp.One">{};
}

template <typename A, fo OA, typename EA, std::uint32_t NA, typename B, fo OB, typename EB, std::uint32_t NB>
struct Two {
  using hpp_proto_traits_type = hp::default_traits;
  A a{};
  B b{};
  bool operator==(const Two &) const = default;
};
template <typename A, fo OA, typename EA, std::uint32_t NA, typename B, fo OB, typename EB, std::uint32_t NB>
auto pb_meta(const Two<A, OA, EA, NA, B, OB, EB, NB> &)
    -> std::tuple<hp::field_meta<NA, &Two<A, OA, EA, NA, B, OB, EB, NB>::a, OA, EA>,
                  hp::field_meta<NB, &Two<A, OA, EA, NA, B, OB, EB, NB>::b, OB, EB>>;
template <typename A, fo OA, typename EA, std::uint32_t NA, typename B, fo OB, typename EB, std::uint32_t NB>
constexpr auto message_type_url(const Two<A, OA, EA, NA, B, OB, EB, NB> &) {
  return hp::string_literal<"type.googleapis.com/vp.Two">{};
}

enum class E : std::int32_t { Z = 0, ONE = 1, FIVE = 5, NEG = -1 };
constexpr bool is_valid(E v) {
  int i = static_cast<int>(v);
  return i == 0 || i == 1 || i == 5 || i == -1;
}

// ---- specification functions (independent of the library) -------------------------------------------------
// number of bytes of the canonical base-128 varint of v
constexpr unsigned spec_varint_len(std::uint64_t v) {
  return v < (1ULL << 7) ? 1 : v < (1ULL << 14) ? 2 : v < (1ULL << 21) ? 3 : v < (1ULL << 28) ? 4 : v < (1ULL << 35) ? 5
       : v < (1ULL << 42) ? 6 : v < (1ULL << 49) ? 7 : v < (1ULL << 56) ? 8 : v < (1ULL << 63) ? 9 : 10;
}
// byte i of the canonical varint of v, which has n bytes
constexpr std::uint8_t spec_varint_byte(std::uint64_t v, unsigned i, unsigned n) {
  return static_cast<std::uint8_t>(((v >> (7 * i)) & 0x7f) | (i + 1 < n ? 0x80 : 0));
}
constexpr std::uint64_t spec_zigzag64(std::int64_t v) {
  return v >= 0 ? 2 * static_cast<std::uint64_t>(v) : 2 * (~static_cast<std::uint64_t>(v)) + 1;
}
constexpr std::uint32_t spec_zigzag32(std::int32_t v) {
  return v >= 0 ? 2 * static_cast<std::uint32_t>(v) : 2 * (~static_cast<std::uint32_t>(v)) + 1;
}
// value of a terminated varint p[0..n)
inline std::uint64_t spec_varint_value(const std::uint8_t *p, unsigned n) {
  std::uint64_t r = 0;
  for (unsigned i = 0; i < n && i < 10; i++)
    r |= static_cast<std::uint64_t>(p[i] & 0x7f) << (7 * i);
  return r;
}
struct spec_writer { // straight-line reference encoder used in postconditions
  std::uint8_t b[128] = {};
  unsigned n = 0;
  constexpr void varint(std::uint64_t v) {
    unsigned k = spec_varint_len(v);
    for (unsigned i = 0; i < k; i++)
      b[n++] = spec_varint_byte(v, i, k);
  }
  constexpr void tag(std::uint32_t num, unsigned wt) { varint((static_cast<std::uint64_t>(num) << 3) | wt); }
  constexpr void fixed(std::uint64_t v, unsigned k) {
    for (unsigned i = 0; i < k; i++)
      b[n++] = static_cast<std::uint8_t>(v >> (8 * i));
  }
  void raw(const void *p, unsigned k) {
    std::memcpy(b + n, p, k);
    n += k;
  }
};
using bytevec = std::vector<std::byte>;
inline bool eq_bytes(const bytevec &v, const spec_writer &w) {
  return v.size() == w.n && std::memcmp(v.data(), w.b, w.n) == 0;
}
