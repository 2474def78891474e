// merge(): oneofs with message members, maps, lists of messages, explicit presence; moved, const and view-typed sources.
#include "rich.hpp"
#include <hpp_proto/merge.hpp>
using namespace hpp_proto;
namespace {
template <typename Traits> struct Pick {
  using hpp_proto_traits_type = Traits;
  std::variant<std::monostate, std::uint32_t, typename Traits::string_t, Inner<Traits>, Inner<Traits>, CE, Inner<Traits>> o;
  bool operator==(const Pick &) const = default;
};
template <typename Traits>
auto pb_meta(const Pick<Traits> &) -> std::tuple<hp::oneof_field_meta<
    &Pick<Traits>::o, hp::field_meta<1, 1, fo::explicit_presence, vuint32_t>, hp::field_meta<2, 2, fo::explicit_presence>,
    hp::field_meta<3, 3, fo::explicit_presence>, hp::field_meta<4, 4, fo::explicit_presence | fo::group>,
    hp::field_meta<5, 5, fo::explicit_presence | fo::closed_enum>, hp::field_meta<6, 6, fo::explicit_presence>>>;
template <typename P> P pick(unsigned k, const char *tag) {
  P p;
  const auto x = vp_u32(tag);
  auto message = [&](auto &m) {
    m.x = x;
    if (vp_split_u64(vp_size("string?", 1)) != 0)
      m.s.assign(2, static_cast<char>(vp_u8(tag)));
  };
  switch (k) {
  case 1: p.o.template emplace<1>(x); break;
  case 2: p.o.template emplace<2>(1, static_cast<char>(x)); break;
  case 3: message(p.o.template emplace<3>()); break;
  case 4: message(p.o.template emplace<4>()); break;
  case 5: p.o.template emplace<5>(CE::C); break;
  case 6: message(p.o.template emplace<6>()); break;
  }
  return p;
}
template <typename I, typename J> void into(I &d, const J &s) {
  if (s.x != 0)
    d.x = s.x;
  if (!s.s.empty())
    d.s = s.s;
}
template <typename P> void spec_merge(P &d, const P &s) {
  if (s.o.index() != 0 && s.o.index() != d.o.index())
    d.o = s.o;
  else if (s.o.index() == 1)
    std::get<1>(d.o) = std::get<1>(s.o);
  else if (s.o.index() == 2)
    std::get<2>(d.o) = std::get<2>(s.o);
  else if (s.o.index() == 3)
    into(std::get<3>(d.o), std::get<3>(s.o));
  else if (s.o.index() == 4)
    into(std::get<4>(d.o), std::get<4>(s.o));
  else if (s.o.index() == 5)
    std::get<5>(d.o) = std::get<5>(s.o);
  else if (s.o.index() == 6)
    into(std::get<6>(d.o), std::get<6>(s.o));
}
template <typename Traits> struct Bag {
  using hpp_proto_traits_type = Traits;
  typename Traits::template map_t<std::int32_t, typename Traits::string_t> names; // 1
  typename Traits::template map_t<std::int32_t, Inner<Traits>> by;                // 2
  typename Traits::template repeated_t<Inner<Traits>> list;                       // 3
  hp::optional<bool> flag;                                                        // 4
  hp::optional<std::uint32_t, 7u> num;                                            // 5, default 7
  std::optional<Inner<Traits>> m;                                                 // 6
  std::uint32_t plain{};                                                          // 7
  typename Traits::bytes_t raw;                                                   // 8
  bool operator==(const Bag &) const = default;
};
template <typename Traits>
auto pb_meta(const Bag<Traits> &) -> std::tuple<
    hp::field_meta<1, &Bag<Traits>::names, fo::none, hp::map_entry<vint64_t, typename Traits::string_t, fo::none, fo::none>>,
    hp::field_meta<2, &Bag<Traits>::by, fo::none, hp::map_entry<vint64_t, Inner<Traits>, fo::none, fo::none>>,
    hp::field_meta<3, &Bag<Traits>::list, fo::none>, hp::field_meta<4, &Bag<Traits>::flag, fo::explicit_presence, bool>,
    hp::field_meta<5, &Bag<Traits>::num, fo::explicit_presence, vuint32_t, 7u>,
    hp::field_meta<6, &Bag<Traits>::m, fo::explicit_presence>, hp::field_meta<7, &Bag<Traits>::plain, fo::none, vuint32_t>,
    hp::field_meta<8, &Bag<Traits>::raw, fo::none>>;
constexpr unsigned shapes = 6; // bit 0: maps and lists populated, the rest selects the singular fields
template <typename B> B bag(unsigned shape, bool source) {
  B b;
  // keys: the destination has 1 and 2, the source 2 and 3
  const std::int32_t k0 = source ? 2 : 1;
  if (shape & 1) {
    for (std::int32_t k = k0; k < k0 + 2; ++k) {
      b.names.insert_or_assign(k, std::string(1, static_cast<char>(vp_u8("name"))));
      Inner<typename B::hpp_proto_traits_type> e;
      e.x = vp_u32("value");
      b.by.insert_or_assign(k, e);
      b.list.push_back(e);
    }
  }
  if (shape & 2) {
    b.flag = vp_u8("flag") != 0;
    b.num = vp_u32("num");
    b.m.emplace().x = vp_u32("mx");
  }
  if (shape & 4) {
    b.plain = vp_u32("plain");
    b.m.emplace().s.assign(1, static_cast<char>(vp_u8("ms")));
    b.raw.assign(2, std::byte(vp_u8("raw")));
  }
  return b;
}
template <typename B> void spec_merge_bag(B &d, const B &s) {
  for (auto &&[k, v] : s.names)
    d.names.insert_or_assign(k, v);
  for (auto &&[k, v] : s.by)
    d.by.insert_or_assign(k, v);
  for (auto &x : s.list)
    d.list.push_back(x);
  if (s.flag.has_value())
    d.flag = s.flag;
  if (s.num.has_value())
    d.num = s.num;
  if (s.m) {
    if (!d.m)
      d.m.emplace();
    into(*d.m, *s.m);
  }
  if (s.plain != 0)
    d.plain = s.plain;
  if (!s.raw.empty())
    d.raw = s.raw;
}
template <typename M, typename F> void check(const M &d0, const M &s0, F spec) {
  M want = d0, d = d0, e = d0;
  spec(want, s0);
  const M s = s0;
  hp::merge(d, s);
  vp_assert(d == want, "every field is merged as specified");
  vp_assert(s == s0, "a const source is unchanged");
  M moved = s0;
  hp::merge(e, std::move(moved));
  vp_assert(e == want, "a moved source gives the same result");
  vp_cover("end");
}
template <typename Traits> void bags() {
  const auto c = vp_case(64);
  check(bag<Bag<Traits>>(c % 8, false), bag<Bag<Traits>>(c / 8, true), [](auto &d, auto &s) { spec_merge_bag(d, s); });
}
} // namespace
//@ props=P18 cases=49 bound="strings of up to 2 bytes" cost=10
// every pair of oneof members: the same message member is merged, anything else is replaced, an unset source changes nothing
VP_HARNESS(h_merge_oneof) {
  using P = Pick<default_traits>;
  const auto c = vp_case(49);
  check(pick<P>(c % 7, "d"), pick<P>(c / 7, "s"), [](auto &d, auto &s) { spec_merge(d, s); });
}
//@ props=P18 cases=64 bound="maps and lists of two elements, strings of one byte" cost=10
VP_HARNESS(h_merge_bag_flat) { bags<stable_traits>(); }
//@ props=P18 cases=64 bound="maps and lists of two elements, strings of one byte" cost=10
VP_HARNESS(h_merge_bag_hash) { bags<default_traits>(); }
//@ props=P18 cases=7 bound="strings of up to 2 bytes"
// a source of view type merged into an owning message: the oneof
VP_HARNESS(h_merge_oneof_view) {
  using V = Pick<non_owning_traits>;
  using P = Pick<default_traits>;
  const auto k = vp_case(7);
  char text[2] = {static_cast<char>(vp_u8("t0")), static_cast<char>(vp_u8("t1"))};
  const auto x = vp_u32("x");
  V v;
  P want;
  auto message = [&](auto &m, auto &w) { w.x = m.x = x, m.s = std::string_view{&text[0], 2}, w.s.assign(&text[0], 2); };
  switch (k) {
  case 1: v.o.emplace<1>(x), want.o.emplace<1>(x); break;
  case 2: v.o.emplace<2>(std::string_view{&text[0], 2}), want.o.emplace<2>(&text[0], 2); break;
  case 3: message(v.o.emplace<3>(), want.o.emplace<3>()); break;
  case 4: message(v.o.emplace<4>(), want.o.emplace<4>()); break;
  case 5: v.o.emplace<5>(CE::B), want.o.emplace<5>(CE::B); break;
  case 6: message(v.o.emplace<6>(), want.o.emplace<6>()); break;
  }
  P d;
  hp::merge(d, v);
  vp_assert(d == want, "the member of the source is taken over");
  P e;
  e.o.emplace<6>().x = 9;
  if (k == 0)
    want = e;
  else if (k == 6 && x == 0)
    std::get<6>(want.o).x = 9;
  hp::merge(e, v);
  vp_assert(e == want, "or merged with the same member of the destination");
  vp_cover("end");
}
