// Nesting limits: recursion_limit<N> accepts nesting of N levels below the root and rejects N+1, for every mixture of
// message kinds, on reading and on writing; siblings do not add up.
#include "rich.hpp"
using namespace hpp_proto;
namespace {
// message with every way of nesting itself; unknown fields retained
template <typename Traits = keep_unknown_fields<stable_traits>> struct Nest {
  using hpp_proto_traits_type = Traits;
  typename Traits::template optional_indirect_t<Nest> m;                                   // 1 message
  typename Traits::template optional_indirect_t<Nest> g;                                   // 2 group
  typename Traits::template recursive_repeated_t<Nest> r;                                  // 3 repeated message
  std::variant<std::monostate, std::uint32_t, hpp_proto::indirect<Nest>> o;                // 4, 5 oneof
  std::uint32_t v{};                                                                       // 6
  [[no_unique_address]] hp::pb_unknown_fields<Traits> unknown_fields_;
  bool operator==(const Nest &) const = default;
};
template <typename Traits>
auto pb_meta(const Nest<Traits> &)
    -> std::tuple<hp::field_meta<1, &Nest<Traits>::m, fo::explicit_presence>,
                  hp::field_meta<2, &Nest<Traits>::g, fo::explicit_presence | fo::group>,
                  hp::field_meta<3, &Nest<Traits>::r, fo::none>,
                  hp::oneof_field_meta<&Nest<Traits>::o, hp::field_meta<4, 1, fo::explicit_presence, hp::vuint32_t>,
                                       hp::field_meta<5, 2, fo::explicit_presence>>,
                  hp::field_meta<6, &Nest<Traits>::v, fo::none, hp::vuint32_t>,
                  hp::field_meta<UINT32_MAX, &Nest<Traits>::unknown_fields_>>;
using N = Nest<>;
// kinds: 0 message, 1 group, 2 repeated, 3 oneof, 4 unknown group (reading only)
struct enc {
  std::uint8_t b[64];
  unsigned n = 64; // written backwards
  void byte(std::uint8_t v) { b[--n] = v; }
  void end(std::uint8_t v) { // append one byte
    std::memmove(b + n - 1, b + n, 64 - n);
    --n;
    b[63] = v;
  }
  void wrap(unsigned kind) {
    const auto len = static_cast<std::uint8_t>(64 - n);
    static constexpr std::uint8_t open[] = {0x0a, 0x13, 0x1a, 0x2a, 0x3b};
    if (kind == 1 || kind == 4)
      end(open[kind] + 1);
    else
      byte(len);
    byte(open[kind]);
  }
  std::span<const std::byte> bytes() const { return {reinterpret_cast<const std::byte *>(b) + n, 64 - n}; }
};
void nest(N &m, unsigned kind, N &&inner) {
  switch (kind) {
  case 0: m.m = std::move(inner); break;
  case 1: m.g = std::move(inner); break;
  case 2: m.r.push_back(std::move(inner)); break;
  case 3: m.o = hpp_proto::indirect<N>(std::move(inner)); break;
  }
}
// once inside an unknown group every deeper level is an unknown group
bool shape(std::uint64_t c, unsigned (&k)[3]) {
  bool in_unknown = false;
  for (unsigned i = 0; i < 3; i++) {
    k[i] = static_cast<unsigned>(c % 5);
    c /= 5;
    if (in_unknown && k[i] != 4)
      return false;
    in_unknown |= k[i] == 4;
  }
  return true;
}
// messages with a map whose values are messages
struct MapOuter {
  using hpp_proto_traits_type = stable_traits;
  flat_map<std::int32_t, Inner<>> f;
  bool operator==(const MapOuter &) const = default;
};
auto pb_meta(const MapOuter &)
    -> std::tuple<hp::field_meta<1, &MapOuter::f, fo::none, hp::map_entry<vint64_t, Inner<>, fo::none, fo::none>>>;
// limits 0..3 tried through the public option
template <typename F> void each_limit(F f) {
  f(recursion_limit<0>, 0u);
  f(recursion_limit<1>, 1u);
  f(recursion_limit<2>, 2u);
  f(recursion_limit<3>, 3u);
  f(recursion_limit<4>, 4u);
}
} // namespace
//@ props=P09
// the scope guard itself, for every depth and limit: entering succeeds exactly when the budget allows and leaving undoes it
VP_HARNESS(h_scope) {
  std::uint32_t depth = vp_u32("depth"), limit = vp_u32("limit"), before = depth;
  vp_assume(limit < UINT32_MAX);
  {
    const hpp_proto::detail::recursion_scope s{depth, limit};
    vp_assert(s.ok() == (before <= limit), "a level is entered exactly when at most limit levels are active below the root");
    vp_assert(depth == before + (s.ok() ? 1 : 0), "an entered level is counted");
  }
  vp_assert(depth == before, "leaving restores the depth");
  vp_cover("end");
}
//@ props=P09 cases=125 bound="three levels of nesting in every mixture of message, group, repeated, oneof and unknown group; limits 0..4" cost=30 t=60
VP_HARNESS(h_limit_read) {
  unsigned k[3];
  if (!shape(vp_case(125), k))
    return;
  enc e;
  e.byte(vp_u8("v") & 0x7f);
  e.byte(0x30);
  for (int i = 2; i >= 0; i--)
    e.wrap(k[i]);
  std::span<const std::byte> seg[2] = {e.bytes().subspan(0, 3), e.bytes().subspan(3)};
  each_limit([&](auto lim, unsigned n) {
    N m;
    vp_assert(read_binpb(m, e.bytes(), lim).ok() == (n >= 3), "reading accepts nesting exactly up to the limit");
    vp_assert(read_binpb(m, std::span(seg), lim).ok() == (n >= 3), "reading segments accepts nesting exactly up to the limit");
  });
  vp_cover("end");
}
//@ props=P09 cases=64 bound="three levels of nesting in every mixture of message, group, repeated and oneof; limits 0..4" cost=30 t=60
VP_HARNESS(h_limit_write) {
  auto c = vp_case(64);
  N m[4];
  m[3].v = (vp_u8("v") & 0x7f) | 1;
  for (int i = 2; i >= 0; i--) {
    nest(m[i], c % 4, std::move(m[i + 1]));
    m[i].v = (vp_u8("w") & 0x7f) | 1;
    c /= 4;
  }
  each_limit([&](auto lim, unsigned n) {
    bytevec b;
    vp_assert(write_binpb(m[0], b, lim).ok() == (n >= 3), "writing accepts nesting exactly up to the limit");
  });
  vp_cover("end");
}
//@ props=P09 bound="two siblings of each kind"
// depth is counted per path: siblings of every kind at depth 1 and 2 are accepted at limit 2
VP_HARNESS(h_limit_wide) {
  N leaf, mid, m;
  leaf.v = (vp_u8("v") & 0x7f) | 1;
  for (unsigned k = 0; k < 4; k++)
    nest(mid, k, N(leaf));
  mid.r.push_back(leaf);
  mid.unknown_fields_.fields = {std::byte{0x3b}, std::byte{0x3c}, std::byte{0x3b}, std::byte{0x3c}};
  for (unsigned k = 0; k < 4; k++)
    nest(m, k, N(mid));
  m.r.push_back(mid);
  bytevec b;
  vp_assert(write_binpb(m, b, recursion_limit<2>).ok(), "a wide message of depth 2 is written at limit 2");
  N o;
  vp_assert(read_binpb(o, b, recursion_limit<2>).ok(), "and read back at limit 2");
  vp_assert(o == m, "unchanged");
  vp_assert(!read_binpb(o, b, recursion_limit<1>).ok(), "but not at limit 1");
  vp_cover("end");
}
//@ props=P09 cases=3 bound="maps of 0..2 message values"
// a map value is two levels down (entry, value): reading and writing agree on that
VP_HARNESS(h_limit_map) {
  MapOuter m;
  auto n = vp_case(3);
  for (unsigned i = 0; i < n; i++)
    m.f[static_cast<std::int32_t>(i)].x = vp_u32("x") | 1;
  bytevec b;
  vp_assert(write_binpb(m, b).ok(), "written at the default limit");
  each_limit([&](auto lim, unsigned k) {
    bytevec c;
    MapOuter o;
    bool w = write_binpb(m, c, lim).ok(), r = read_binpb(o, b, lim).ok();
    vp_assert(w == r, "reading and writing agree on the depth of map values");
    vp_assert(w == (n == 0 || k >= 2), "a map value is nested two levels deep");
    if (r)
      vp_assert(o == m, "map is preserved");
  });
  vp_cover("end");
}
//@ props=P09 bound="chains of 100 and 101 groups" t=120
// the default limit is 100
VP_HARNESS(h_limit_default) {
  std::byte b[202];
  auto chain = [&](unsigned n, unsigned open) {
    for (unsigned i = 0; i < n; i++) {
      b[i] = static_cast<std::byte>(open);
      b[2 * n - 1 - i] = static_cast<std::byte>(open + 1);
    }
    return std::span<const std::byte>(b, 2 * n);
  };
  N m;
  vp_assert(read_binpb(m, chain(100, 0x13)).ok(), "100 nested groups are accepted");
  bytevec w;
  vp_assert(write_binpb(m, w).ok() && w.size() == 200, "and written");
  vp_assert(!read_binpb(m, chain(101, 0x13)).ok(), "101 nested groups are rejected");
  vp_assert(read_binpb(m, chain(100, 0x3b)).ok(), "100 nested unknown groups are accepted");
  vp_assert(!read_binpb(m, chain(101, 0x3b)).ok(), "101 nested unknown groups are rejected");
  vp_cover("end");
}
