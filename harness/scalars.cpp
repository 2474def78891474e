// Wire format and round trip of every scalar kind, all values, through the public write_binpb/read_binpb.
#include "schema.hpp"
using namespace hpp_proto;
namespace {
enum class K { var, fix32, fix64 };
template <typename M> void check(const M &m, const spec_writer &w) {
  bytevec buf;
  vp_assert(write_binpb(m, buf).ok(), "write succeeds");
  vp_assert(eq_bytes(buf, w), "encoded bytes match the wire-format spec");
  M o;
  vp_assert(read_binpb(o, buf).ok(), "read back succeeds");
  if constexpr (requires { m.f.has_value(); }) {
    vp_assert(o.f.has_value() == m.f.has_value(), "presence is preserved");
    if (m.f.has_value()) {
      auto x = *m.f, y = *o.f;
      vp_assert(std::memcmp(&x, &y, sizeof(x)) == 0, "value is preserved");
    }
  } else {
    vp_assert(std::memcmp(&m.f, &o.f, sizeof(m.f)) == 0, "value is preserved");
  }
  vp_cover("end");
}
template <std::uint32_t N, typename T> void put(spec_writer &w, K k, std::uint64_t wire) {
  w.tag(N, k == K::var ? 0 : k == K::fix64 ? 1 : 5);
  if (k == K::var)
    w.varint(wire);
  else
    w.fixed(wire, k == K::fix64 ? 8 : 4);
}
// implicit presence: zero is omitted, everything else is written; explicit presence: exactly has_value() is written
template <typename T, typename Enc, std::uint32_t N = 1> void both(T v, K k, std::uint64_t wire) {
  if (vp_bool("explicit")) {
    One<hpp_proto::optional<T>, EXPL, Enc, N> m;
    spec_writer w;
    if (vp_bool("has")) {
      m.f = v;
      put<N, T>(w, k, wire);
    }
    check(m, w);
  } else {
    One<T, NONE, Enc, N> m;
    m.f = v;
    spec_writer w;
    if (wire != 0) // -0.0 has a nonzero bit pattern and is written
      put<N, T>(w, k, wire);
    check(m, w);
  }
}
std::int32_t i32() { return static_cast<std::int32_t>(vp_u32("v")); }
std::int64_t i64() { return static_cast<std::int64_t>(vp_u64("v")); }
} // namespace
//@ props=P01,P03
// int32: sign-extended 64-bit varint
VP_HARNESS(h_i32) { auto v = i32(); both<std::int32_t, vint64_t>(v, K::var, static_cast<std::uint64_t>(static_cast<std::int64_t>(v))); }
//@ props=P01,P03
VP_HARNESS(h_i64) { auto v = i64(); both<std::int64_t, vint64_t>(v, K::var, static_cast<std::uint64_t>(v)); }
//@ props=P01,P03
VP_HARNESS(h_u32) { auto v = vp_u32("v"); both<std::uint32_t, vuint32_t>(v, K::var, v); }
//@ props=P01,P03
VP_HARNESS(h_u64) { auto v = vp_u64("v"); both<std::uint64_t, vuint64_t>(v, K::var, v); }
//@ props=P01,P03
VP_HARNESS(h_s32) { auto v = i32(); both<std::int32_t, vsint32_t>(v, K::var, spec_zigzag32(v)); }
//@ props=P01,P03
VP_HARNESS(h_s64) { auto v = i64(); both<std::int64_t, vsint64_t>(v, K::var, spec_zigzag64(v)); }
//@ props=P03
VP_HARNESS(h_f32) { auto v = vp_u32("v"); both<std::uint32_t, void>(v, K::fix32, v); }
//@ props=P03
VP_HARNESS(h_f64) { auto v = vp_u64("v"); both<std::uint64_t, void>(v, K::fix64, v); }
//@ props=P03
VP_HARNESS(h_sf32) { auto v = i32(); both<std::int32_t, void>(v, K::fix32, static_cast<std::uint32_t>(v)); }
//@ props=P03
VP_HARNESS(h_sf64) { auto v = i64(); both<std::int64_t, void>(v, K::fix64, static_cast<std::uint64_t>(v)); }
//@ props=P03
// float: bit pattern preserved, -0.0 and NaN payloads included
VP_HARNESS(h_float) {
  auto b = vp_u32("v");
  both<float, void>(std::bit_cast<float>(b), K::fix32, b);
}
//@ props=P03
VP_HARNESS(h_double) {
  auto b = vp_u64("v");
  both<double, void>(std::bit_cast<double>(b), K::fix64, b);
}
//@ props=P01,P03
VP_HARNESS(h_bool) { auto v = vp_bool("v"); both<bool, bool>(v, K::var, v); }
//@ props=P01,P03
// open enum: any int32
VP_HARNESS(h_enum) { auto v = i32(); both<E, void>(static_cast<E>(v), K::var, static_cast<std::uint64_t>(static_cast<std::int64_t>(v))); }
namespace {
template <std::uint32_t N> void numbered() {
  auto v = vp_u32("v");
  One<hpp_proto::optional<std::uint32_t>, EXPL, void, N> m;
  m.f = v;
  spec_writer w;
  put<N, std::uint32_t>(w, K::fix32, v);
  check(m, w);
}
} // namespace
//@ props=P01,P03,P14
// keys: every tag length, up to the largest legal field number
VP_HARNESS(h_tags) {
  switch (vp_split_u64(vp_size("k", 11))) {
  case 0: numbered<1>(); break;
  case 1: numbered<15>(); break;
  case 2: numbered<16>(); break;
  case 3: numbered<2047>(); break;
  case 4: numbered<2048>(); break;
  case 5: numbered<262143>(); break;
  case 6: numbered<262144>(); break;
  case 7: numbered<33554431>(); break;
  case 8: numbered<33554432>(); break;
  case 9: numbered<134217729>(); break;
  case 10: numbered<411041792>(); break;
  default: numbered<536870911>(); break;
  }
}
namespace {
// a varint field of type T fed with an arbitrary canonical varint, wider or narrower than T: truncated to T
template <typename T, typename Enc> void wide(auto spec) {
  std::uint64_t w = vp_u64("w");
  spec_writer in;
  in.tag(1, 0);
  in.varint(w);
  One<T, NONE, Enc> m;
  vp_assert(read_binpb(m, std::span<const std::uint8_t>(in.b, in.n)).ok(), "accepted");
  vp_assert(m.f == spec(w), "the low bits of the varint");
  vp_cover("end");
}
} // namespace
//@ props=P02,P03
// compatibility of the varint types: a value written by a wider type is truncated
VP_HARNESS(h_wide_i32) { wide<std::int32_t, vint64_t>([](std::uint64_t w) { return static_cast<std::int32_t>(w); }); }
//@ props=P02,P03
VP_HARNESS(h_wide_u32) { wide<std::uint32_t, vuint32_t>([](std::uint64_t w) { return static_cast<std::uint32_t>(w); }); }
//@ props=P02,P03
VP_HARNESS(h_wide_s32) {
  wide<std::int32_t, vsint32_t>([](std::uint64_t w) {
    auto x = static_cast<std::uint32_t>(w);
    return static_cast<std::int32_t>((x >> 1) ^ (0U - (x & 1)));
  });
}
//@ props=P02,P03
VP_HARNESS(h_wide_bool) { wide<bool, bool>([](std::uint64_t w) { return w != 0; }); }
//@ props=P02,P03
VP_HARNESS(h_wide_enum) { wide<E, void>([](std::uint64_t w) { return static_cast<E>(static_cast<std::int32_t>(w)); }); }
