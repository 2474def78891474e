// Nested messages, groups, recursive messages, repeated messages/strings, maps, oneofs, packed and unpacked lists.
#include "rich.hpp"
#include <deque>
using namespace hpp_proto;
namespace {
constexpr std::size_t BIG = 1u << 24; // strings of any length up to 16 MiB (far above every length-prefix boundary)
template <typename M> void roundtrip(const M &m, std::size_t expected) {
  bytevec buf;
  vp_assert(write_binpb(m, buf).ok(), "write succeeds");
  vp_assert(buf.size() == expected, "encoded size matches the wire-format spec");
  M o;
  vp_assert(read_binpb(o, buf).ok(), "read back succeeds");
  vp_assert(o == m, "message is preserved");
  vp_cover("end");
}
std::size_t inner_size(const Inner<> &i) {
  return (i.x ? 1 + spec_varint_len(i.x) : 0) + (i.s.empty() ? 0 : 1 + spec_varint_len(i.s.size()) + i.s.size());
}
std::size_t len_rec(std::size_t n) { return spec_varint_len(n) + n; }
} // namespace
//@ props=P03,P08 cost=20
// optional message field; inner string of any length
VP_HARNESS(h_nested) {
  One<std::optional<Inner<>>, EXPL> m;
  std::size_t want = 0;
  if (vp_bool("has")) {
    m.f.emplace();
    m.f->x = vp_u32("x");
    m.f->s = any_string(BIG);
    want = 1 + len_rec(inner_size(*m.f));
  }
  roundtrip(m, want);
}
//@ props=P03,P08
// group field (start/end tags, no length prefix)
VP_HARNESS(h_group) {
  One<std::optional<Inner<>>, EXPL | fo::group, void, 17> m;
  std::size_t want = 0;
  if (vp_bool("has")) {
    m.f.emplace();
    m.f->x = vp_u32("x");
    m.f->s = any_string(BIG);
    want = 4 + inner_size(*m.f);
  }
  roundtrip(m, want);
}

namespace {
template <typename T> T any_of(const char *n) {
  if constexpr (std::same_as<T, hpp_proto::boolean>)
    return vp_bool(n);
  else if constexpr (std::same_as<T, float>)
    return std::bit_cast<float>(vp_u32(n));
  else if constexpr (std::same_as<T, double>)
    return std::bit_cast<double>(vp_u64(n));
  else if constexpr (sizeof(T) == 4)
    return static_cast<T>(vp_u32(n));
  else
    return static_cast<T>(vp_u64(n));
}
template <typename Enc, typename T> void spec_put(spec_writer &w, T v) {
  if constexpr (std::same_as<Enc, vsint32_t>)
    w.varint(spec_zigzag32(v));
  else if constexpr (std::same_as<Enc, vsint64_t>)
    w.varint(spec_zigzag64(v));
  else if constexpr (std::same_as<T, float>)
    w.fixed(std::bit_cast<std::uint32_t>(v), 4);
  else if constexpr (std::same_as<T, double>)
    w.fixed(std::bit_cast<std::uint64_t>(v), 8);
  else if constexpr (std::same_as<Enc, void> && !std::is_enum_v<T>)
    w.fixed(static_cast<std::uint64_t>(v), sizeof(T));
  else if constexpr (std::is_enum_v<T>)
    w.varint(static_cast<std::uint64_t>(static_cast<std::int64_t>(static_cast<std::int32_t>(v))));
  else if constexpr (std::is_integral_v<T> && std::is_signed_v<T>)
    w.varint(static_cast<std::uint64_t>(static_cast<std::int64_t>(v)));
  else if constexpr (std::same_as<T, hpp_proto::boolean>)
    w.varint(static_cast<bool>(v));
  else
    w.varint(v);
}
template <typename Enc, typename T> constexpr unsigned wire_type() {
  if constexpr (std::same_as<Enc, void> && !std::is_enum_v<T>)
    return sizeof(T) == 4 ? 5 : 1;
  else
    return 0;
}
template <typename T> bool bits_same(const T &a, const T &b) {
  if constexpr (std::same_as<T, float>)
    return std::bit_cast<std::uint32_t>(a) == std::bit_cast<std::uint32_t>(b);
  else if constexpr (std::same_as<T, double>)
    return std::bit_cast<std::uint64_t>(a) == std::bit_cast<std::uint64_t>(b);
  else
    return a == b;
}
// repeated scalar with `n` arbitrary elements: exact wire bytes, round trip, and both list encodings are accepted
template <typename T, typename Enc, fo Opt, std::uint32_t Num> void rep(unsigned n) {
  constexpr bool packed = Opt == PACKED;
  One<std::vector<T>, Opt, Enc, Num> m;
  spec_writer body, w;
  for (unsigned i = 0; i < n; i++) {
    T v = any_of<T>("v");
    m.f.push_back(v);
    spec_put<Enc>(body, v);
    if (!packed) {
      w.tag(Num, wire_type<Enc, T>());
      spec_put<Enc>(w, v);
    }
  }
  if (packed && n) {
    w.tag(Num, 2);
    w.varint(body.n);
    w.raw(body.b, body.n);
  }
  bytevec buf;
  vp_assert(write_binpb(m, buf).ok(), "write succeeds");
  vp_assert(eq_bytes(buf, w), "list is encoded as specified");
  // reader declared with either encoding
  One<std::vector<T>, PACKED, Enc, Num> p;
  One<std::vector<T>, NONE, Enc, Num> u;
  vp_assert(read_binpb(p, buf).ok() && p.f.size() == n, "packed reader accepts");
  vp_assert(read_binpb(u, buf).ok() && u.f.size() == n, "unpacked reader accepts");
  for (unsigned i = 0; i < n; i++) {
    vp_assert(bits_same<T>(p.f[i], m.f[i]), "packed reader gets the elements in order");
    vp_assert(bits_same<T>(u.f[i], m.f[i]), "unpacked reader gets the elements in order");
  }
  vp_cover("end");
}
} // namespace
//@ props=P13,P03 cases=3 bound="list of 0..2 arbitrary elements" cost=10
VP_HARNESS(h_rep_packed_i32) { rep<std::int32_t, vint64_t, PACKED, 3>(vp_case(3)); }
//@ props=P13,P03 cases=3 bound="list of 0..2 arbitrary elements" cost=10
VP_HARNESS(h_rep_unpacked_i32) { rep<std::int32_t, vint64_t, NONE, 3>(vp_case(3)); }
//@ props=P13,P03 cases=3 bound="list of 0..2 arbitrary elements" cost=10
VP_HARNESS(h_rep_packed_s32) { rep<std::int32_t, vsint32_t, PACKED, 16>(vp_case(3)); }
//@ props=P13,P03 cases=3 bound="list of 0..2 arbitrary elements" cost=10
VP_HARNESS(h_rep_packed_u64) { rep<std::uint64_t, vuint64_t, PACKED, 3>(vp_case(3)); }
//@ props=P13,P03 cases=3 bound="list of 0..2 arbitrary elements" cost=10
VP_HARNESS(h_rep_unpacked_s64) { rep<std::int64_t, vsint64_t, NONE, 3>(vp_case(3)); }
//@ props=P13,P03 cases=4 bound="list of 0..3 arbitrary elements"
VP_HARNESS(h_rep_packed_bool) { rep<hpp_proto::boolean, bool, PACKED, 3>(vp_case(4)); }
//@ props=P13,P03 cases=4 bound="list of 0..3 arbitrary elements"
VP_HARNESS(h_rep_unpacked_bool) { rep<hpp_proto::boolean, bool, NONE, 2000>(vp_case(4)); }
//@ props=P13,P03 cases=4 bound="list of 0..3 arbitrary elements"
VP_HARNESS(h_rep_packed_f32) { rep<std::uint32_t, void, PACKED, 3>(vp_case(4)); }
//@ props=P13,P03 cases=4 bound="list of 0..3 arbitrary elements"
VP_HARNESS(h_rep_unpacked_f64) { rep<double, void, NONE, 3>(vp_case(4)); }
//@ props=P13,P03 cases=3 bound="list of 0..2 arbitrary elements"
VP_HARNESS(h_rep_packed_enum) { rep<E, void, PACKED, 3>(vp_case(3)); }
//@ props=P13,P03 cases=3 bound="list of 0..2 arbitrary elements"
VP_HARNESS(h_rep_unpacked_enum) { rep<E, void, NONE, 3>(vp_case(3)); }

namespace {
// packed fixed-width list of any length (bulk copy on little-endian targets)
template <typename T, std::uint32_t Num> void packed_any() {
  std::size_t n = vp_size("n", 0x07ffffff);
  auto *p = reinterpret_cast<T *>(vp_buffer(n * sizeof(T), "payload"));
  One<std::vector<T>, PACKED, void, Num> m, o;
  m.f.assign(p, p + n);
  bytevec buf;
  vp_assert(write_binpb(m, buf).ok(), "write succeeds");
  if (n == 0)
    vp_assert(buf.empty(), "empty list is omitted");
  else {
    spec_writer w;
    w.tag(Num, 2);
    w.varint(n * sizeof(T));
    vp_assert(buf.size() == w.n + n * sizeof(T), "size");
    vp_assert(std::memcmp(buf.data(), w.b, w.n) == 0, "prefix");
    std::size_t i = vp_index(n * sizeof(T));
    vp_assert(buf[w.n + i] == reinterpret_cast<std::byte *>(p)[i], "elements are stored little-endian");
  }
  vp_assert(read_binpb(o, buf).ok(), "read back succeeds");
  vp_assert(o.f.size() == n, "element count preserved");
  if (n) {
    std::size_t i = vp_index(n);
    vp_assert(bits_same<T>(o.f[i], p[i]), "elements preserved");
  }
  vp_cover("end");
}
} // namespace
//@ props=P13,P03
// packed fixed32 list of any length
VP_HARNESS(h_packed_fixed32_any) { packed_any<std::uint32_t, 5>(); }
//@ props=P13,P03
VP_HARNESS(h_packed_double_any) { packed_any<double, 500>(); }
//@ props=P13,P03
VP_HARNESS(h_packed_sfixed64_any) { packed_any<std::int64_t, 5>(); }
