// Repeated scalars on the wire: ragged packed payloads are rejected, packed and single elements mix in any order.
#include "rich.hpp"
using namespace hpp_proto;
namespace {
template <typename T, fo Opt, typename Enc> struct Two {
  std::vector<T> f; // 1
  std::uint32_t z{}; // 2
  bool operator==(const Two &) const = default;
};
template <typename T, fo Opt, typename Enc>
auto pb_meta(const Two<T, Opt, Enc> &) -> std::tuple<hp::field_meta<1, &Two<T, Opt, Enc>::f, Opt, Enc>,
                                                    hp::field_meta<2, &Two<T, Opt, Enc>::z, NONE, vuint32_t>>;
std::span<const std::uint8_t> span_of(const spec_writer &w) { return {w.b, w.n}; }
// a packed payload of L arbitrary bytes, followed by another field
template <typename T, fo Opt> void ragged_fixed(unsigned L) {
  std::uint8_t p[16];
  vp_bytes(p, L, "payload");
  spec_writer w;
  w.tag(1, 2), w.varint(L), w.raw(p, L), w.tag(2, 0), w.varint(5);
  Two<T, Opt, void> m;
  const bool ok = read_binpb(m, span_of(w)).ok();
  std::span<const std::uint8_t> seg[2] = {span_of(w).first(2 + L / 2), span_of(w).subspan(2 + L / 2)};
  Two<T, Opt, void> s;
  const bool sok = read_binpb(s, std::span(seg)).ok();
  vp_assert(ok == (L % sizeof(T) == 0), "accepted exactly when the payload is a whole number of elements");
  vp_assert(sok == ok, "also when read from segments");
  if (ok) {
    vp_assert(m.f.size() == L / sizeof(T) && m.z == 5, "every element and the following field are read");
    for (unsigned i = 0; i < L / sizeof(T); ++i) {
      std::uint64_t v = 0;
      for (unsigned j = 0; j < sizeof(T); ++j)
        v |= static_cast<std::uint64_t>(p[i * sizeof(T) + j]) << (8 * j);
      vp_assert(static_cast<std::uint64_t>(m.f[i]) == v, "elements are little-endian");
    }
    vp_assert(s == m, "also when read from segments");
  }
  vp_cover("end");
}
// a packed payload of L arbitrary bytes read as varints
template <typename T, fo Opt, typename Enc> void ragged_varint(unsigned L) {
  std::uint8_t p[8];
  vp_bytes(p, L, "payload");
  std::uint64_t v[8];
  unsigned n = 0, start = 0;
  std::uint64_t acc = 0;
  for (unsigned i = 0; i < L; ++i) { // fewer than ten bytes: every terminated group is a varint
    acc |= static_cast<std::uint64_t>(p[i] & 0x7f) << (7 * (i - start));
    if (vp_split_u64(p[i] >> 7) == 0)
      v[n++] = acc, acc = 0, start = i + 1;
  }
  spec_writer w;
  w.tag(1, 2), w.varint(L), w.raw(p, L), w.tag(2, 0), w.varint(5);
  Two<T, Opt, Enc> m, s;
  const bool ok = read_binpb(m, span_of(w)).ok();
  std::span<const std::uint8_t> seg[2] = {span_of(w).first(2 + L / 2), span_of(w).subspan(2 + L / 2)};
  const bool sok = read_binpb(s, std::span(seg)).ok();
  vp_assert(ok == (start == L), "accepted exactly when the payload is a whole number of elements");
  vp_assert(sok == ok, "also when read from segments");
  if (ok) {
    vp_assert(m.f.size() == n && m.z == 5, "every element and the following field are read");
    for (unsigned i = 0; i < n; ++i) {
      T want;
      if constexpr (std::same_as<Enc, vsint32_t>)
        want = static_cast<T>((static_cast<std::uint32_t>(v[i]) >> 1) ^ (0U - (static_cast<std::uint32_t>(v[i]) & 1U)));
      else if constexpr (std::same_as<T, hpp_proto::boolean>)
        want = v[i] != 0;
      else
        want = static_cast<T>(v[i]);
      vp_assert(m.f[i] == want, "elements are decoded in order");
    }
    vp_assert(s == m, "also when read from segments");
  }
  vp_cover("end");
}
// pieces of one list: kind 0 a single element, kind 1..3 a packed record of 0..2 elements
template <typename T, fo Opt, typename Enc> void mixed(std::uint64_t c) {
  constexpr bool fixed = std::same_as<Enc, void>;
  spec_writer w;
  std::uint64_t v[8];
  unsigned n = 0;
  auto put = [&](spec_writer &to) {
    v[n] = fixed ? vp_u32("fixed") : vp_u8("small") & 0x7f;
    fixed ? to.fixed(v[n], 4) : to.varint(v[n]);
    ++n;
  };
  for (unsigned i = 0; i < 3; ++i, c /= 5) {
    const unsigned kind = c % 5;
    if (kind == 0) {
      w.tag(1, fixed ? 5 : 0);
      put(w);
    } else if (kind == 4) { // another field in between
      w.tag(2, 0), w.varint(9);
    } else {
      spec_writer body;
      for (unsigned j = 1; j < kind; ++j)
        put(body);
      w.tag(1, 2), w.varint(body.n), w.raw(body.b, body.n);
    }
  }
  Two<T, Opt, Enc> m;
  m.f.push_back(T(1)); // earlier content is reset
  vp_assert(read_binpb(m, span_of(w)).ok(), "any mixture is accepted");
  vp_assert(m.f.size() == n, "every element is read");
  for (unsigned i = 0; i < n; ++i)
    vp_assert(m.f[i] == static_cast<T>(v[i]), "in order");
  vp_cover("end");
}
} // namespace
//@ props=P13,P05 cases=17 bound="payloads of up to 16 bytes"
VP_HARNESS(h_list_ragged_u32) { ragged_fixed<std::uint32_t, PACKED>(vp_case(17)); }
//@ props=P13,P05 cases=17 bound="payloads of up to 16 bytes"
VP_HARNESS(h_list_ragged_u64) { ragged_fixed<std::uint64_t, NONE>(vp_case(17)); }
//@ props=P13,P05 cases=9 bound="payloads of up to 8 bytes" cost=20
VP_HARNESS(h_list_ragged_varint) { ragged_varint<std::uint64_t, PACKED, vuint64_t>(vp_case(9)); }
//@ props=P13,P05 cases=9 bound="payloads of up to 8 bytes" cost=20
VP_HARNESS(h_list_ragged_sint) { ragged_varint<std::int32_t, NONE, vsint32_t>(vp_case(9)); }
//@ props=P13,P05 cases=7 bound="payloads of up to 6 bytes" cost=20
VP_HARNESS(h_list_ragged_bool) { ragged_varint<hpp_proto::boolean, PACKED, bool>(vp_case(7)); }
//@ props=P13 cases=125 bound="three pieces of at most two elements" cost=10
VP_HARNESS(h_list_mixed_varint) { mixed<std::uint32_t, PACKED, vuint32_t>(vp_case(125)); }
//@ props=P13 cases=125 bound="three pieces of at most two elements" cost=10
VP_HARNESS(h_list_mixed_fixed) { mixed<std::uint32_t, NONE, void>(vp_case(125)); }
