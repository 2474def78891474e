// Recursive maps: map<int32, Self> held through indirect, next to a oneof with an indirect alternative.
#include "rich.hpp"
#include <hpp_proto/merge.hpp>
using namespace hpp_proto;
namespace {
template <typename Traits> struct RecMap {
  using hpp_proto_traits_type = Traits;
  std::int32_t v{};
  typename Traits::template map_t<std::int32_t, typename Traits::template indirect_t<RecMap>> by;
  std::variant<std::monostate, typename Traits::template indirect_t<RecMap>, std::uint32_t> o;
  bool operator==(const RecMap &) const = default;
};
template <typename Traits>
auto pb_meta(const RecMap<Traits> &)
    -> std::tuple<hp::field_meta<1, &RecMap<Traits>::v, fo::none, vint64_t>,
                  hp::field_meta<2, &RecMap<Traits>::by, fo::none,
                                 hp::map_entry<vint64_t, typename Traits::template indirect_t<RecMap<Traits>>, fo::none, fo::none>>,
                  hp::oneof_field_meta<&RecMap<Traits>::o, hp::field_meta<3, 1, fo::explicit_presence>,
                                       hp::field_meta<4, 2, fo::explicit_presence, vuint32_t>>>;
using I32 = std::int32_t;
// a tree of n nodes; node i hangs below node par[i] < i, through the map (key i) or, when `one` names it, through the oneof
struct tree {
  unsigned n, par[4] = {}, one = 0;
  I32 v[4];
  explicit tree(std::uint64_t c, bool fixed = false) {
    static constexpr unsigned count[] = {1, 2, 3, 3, 4, 4, 4, 4, 4, 4};
    static constexpr unsigned parents[][4] = {{}, {}, {0, 0, 0}, {0, 0, 1}, {0, 0, 0, 0}, {0, 0, 0, 1}, {0, 0, 0, 2}, {0, 0, 1, 0}, {0, 0, 1, 1}, {0, 0, 1, 2}};
    n = count[c % 10];
    for (unsigned i = 0; i < n; i++)
      par[i] = parents[c % 10][i], v[i] = fixed ? static_cast<I32>((vp_u8("v") & 0x7f) | 1) : i + 1 < n ? static_cast<I32>(vp_u8("v") & 0x7f) : static_cast<I32>(vp_u32("v"));
    one = c / 10 ? n - 1 : 0;
  }
  template <typename M> M make(unsigned i = 0) const {
    M m;
    m.v = v[i];
    for (unsigned j = i + 1; j < n; j++)
      if (par[j] == i) {
        if (j == one)
          m.o.template emplace<1>(make<M>(j));
        else
          m.by.insert_or_assign(static_cast<I32>(j), typename std::remove_cvref_t<decltype(m.by)>::mapped_type(make<M>(j)));
      }
    return m;
  }
  std::size_t size(unsigned i = 0) const {
    std::size_t s = v[i] == 0 ? 0 : 1 + spec_varint_len(static_cast<std::uint64_t>(static_cast<std::int64_t>(v[i])));
    for (unsigned j = i + 1; j < n; j++)
      if (par[j] == i)
        s += 2 + size(j) + (j == one ? 0 : 4); // all lengths are below 128
    return s;
  }
  unsigned depth(unsigned i = 0) const {
    unsigned d = 0;
    for (unsigned j = i + 1; j < n; j++)
      if (par[j] == i)
        d = std::max(d, depth(j) + (j == one ? 1u : 2u)); // a map value is two levels down
    return d;
  }
};
template <typename Traits> void roundtrip() {
  using M = RecMap<Traits>;
  tree t(vp_case(20));
  auto m = t.make<M>();
  bytevec b;
  vp_assert(write_binpb(m, b).ok(), "a recursive map is written");
  vp_assert(b.size() == t.size(), "one entry per element, each with its key and its message");
  M o;
  vp_assert(read_binpb(o, b).ok() && o == m, "and read back unchanged");
  vp_cover("end");
}
} // namespace
//@ props=P08,P05,P30 cases=20 bound="trees of up to four nodes linked by map entries and oneof members" cost=10
VP_HARNESS(h_recmap_flat) { roundtrip<stable_traits>(); }
//@ props=P08,P05,P30 cases=20 bound="trees of up to four nodes linked by map entries and oneof members" cost=10
VP_HARNESS(h_recmap_hash) { roundtrip<default_traits>(); }
//@ props=P09 cases=20 bound="trees of up to four nodes linked by map entries and oneof members; limits 0..7" cost=10
VP_HARNESS(h_recmap_limit) {
  using M = RecMap<stable_traits>;
  tree t(vp_case(20), true);
  auto m = t.make<M>();
  bytevec b;
  vp_assert(write_binpb(m, b).ok(), "written at the default limit");
  auto at = [&](auto lim, unsigned n) {
    bytevec c;
    M o;
    vp_assert(write_binpb(m, c, lim).ok() == (t.depth() <= n), "writing accepts nesting exactly up to the limit");
    vp_assert(read_binpb(o, b, lim).ok() == (t.depth() <= n), "reading accepts nesting exactly up to the limit");
  };
  at(recursion_limit<0>, 0), at(recursion_limit<1>, 1), at(recursion_limit<2>, 2), at(recursion_limit<3>, 3);
  at(recursion_limit<4>, 4), at(recursion_limit<5>, 5), at(recursion_limit<6>, 6), at(recursion_limit<7>, 7);
  vp_cover("end");
}
//@ props=P18 cases=60 bound="trees of up to four nodes linked by map entries and oneof members, merged into three destinations" cost=10
// merging a message with map entries: entries are inserted or replaced, the oneof switches; const source and moved source agree
VP_HARNESS(h_recmap_merge) {
  using M = RecMap<stable_traits>;
  auto c = vp_case(60);
  tree t(c % 20);
  const auto src = t.make<M>();
  M d;
  d.v = 77;
  M inner, one;
  inner.v = 5, one.v = 6;
  d.by.insert_or_assign(1, indirect<M>(inner));
  d.by.insert_or_assign(9, indirect<M>(inner));
  if (c / 20 == 1)
    d.o.emplace<2>(3u);
  if (c / 20 == 2)
    d.o.emplace<1>(one);
  M want = d, e = d;
  want.v = src.v ? src.v : 77;
  for (auto &&[k, x] : src.by)
    want.by.insert_or_assign(k, x);
  if (src.o.index() == 1) {
    if (c / 20 == 2) { // the same member: merged recursively (the last node of a tree has no entries)
      M &w = *std::get<1>(want.o);
      w.v = std::get<1>(src.o)->v ? std::get<1>(src.o)->v : 6;
    } else
      want.o = src.o;
  }
  M copy = src;
  hp::merge(d, src);
  vp_assert(d == want, "entries are inserted or replaced, other entries stay");
  vp_assert(src == copy, "the source is unchanged");
  hp::merge(e, std::move(copy));
  vp_assert(e == want, "a moved source gives the same result");
  vp_cover("end");
}
