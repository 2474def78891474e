// Map fields: flat_map (stable traits) and std::unordered_map (default traits).
#include "rich.hpp"
using namespace hpp_proto;
namespace {
template <typename Map, typename KE, typename VE, fo VO = NONE> struct WithMap {
  using hpp_proto_traits_type = stable_traits;
  Map f;
  bool operator==(const WithMap &) const = default;
};
template <typename Map, typename KE, typename VE, fo VO>
auto pb_meta(const WithMap<Map, KE, VE, VO> &)
    -> std::tuple<hp::field_meta<3, &WithMap<Map, KE, VE, VO>::f, NONE, hp::map_entry<KE, VE, NONE, VO>>>;
template <typename M> bool wr(const M &m, bytevec &b) { return write_binpb(m, b).ok(); }
template <typename Map> const typename Map::mapped_type *find(const Map &m, const typename Map::key_type &k) {
  auto it = m.find(k);
  return it == m.end() ? nullptr : &it->second;
}
using I32 = std::int32_t;
template <template <typename, typename> class MapT> using M32 = WithMap<MapT<I32, I32>, vint64_t, vsint32_t>;
template <typename K, typename V> using FM = flat_map<K, V>;
template <typename K, typename V> using UM = std::unordered_map<K, V>;
// n arbitrary entries, possibly with equal keys: exact size, and reading back gives the same map
template <template <typename, typename> class MapT> void roundtrip(unsigned n) {
  M32<MapT> m;
  I32 k[3], v[3];
  for (unsigned i = 0; i < n; i++) {
    k[i] = i ? (vp_u8("k") & 0x7f) - 64 : static_cast<I32>(vp_u32("k")); // later elements: one-byte or negative keys
    v[i] = i ? (vp_u8("v") & 0x3f) : static_cast<I32>(vp_u32("v"));
    m.f.insert_or_assign(k[i], v[i]);
  }
  std::size_t want = 0, count = 0;
  for (unsigned i = 0; i < n; i++) {
    bool last = true;
    for (unsigned j = i + 1; j < n; j++)
      last &= k[j] != k[i];
    if (!last)
      continue;
    ++count;
    want += 2 + 1 + spec_varint_len(static_cast<std::uint64_t>(static_cast<std::int64_t>(k[i]))) + 1 +
            spec_varint_len(spec_zigzag32(v[i]));
  }
  bytevec b;
  vp_assert(m.f.size() == count, "one element per distinct key");
  vp_assert(wr(m, b) && b.size() == want, "every element is written as one entry with key and value");
  M32<MapT> o;
  vp_assert(read_binpb(o, b).ok() && o == m, "the map is preserved");
  vp_cover("end");
}
// entries on the wire with arbitrary keys (values below 64): a later entry replaces an earlier one of the same key
template <template <typename, typename> class MapT> void last_wins(unsigned n) {
  spec_writer w;
  I32 k[3], v[3];
  for (unsigned i = 0; i < n; i++) {
    k[i] = vp_u8("k") & 0x7f;
    v[i] = vp_u8("v") & 0x3f;
    w.tag(3, 2), w.varint(4), w.tag(1, 0), w.varint(static_cast<std::uint64_t>(k[i])), w.tag(2, 0), w.varint(spec_zigzag32(v[i]));
  }
  M32<MapT> o;
  vp_assert(read_binpb(o, std::span<const std::uint8_t>(w.b, w.n)).ok(), "entries are accepted");
  std::size_t count = 0;
  for (unsigned i = 0; i < n; i++) {
    unsigned l = i; // the last entry with this key
    bool first = true;
    for (unsigned j = 0; j < n; j++) {
      if (k[j] == k[i] && j > l)
        l = j;
      first &= j >= i || k[j] != k[i];
    }
    count += first;
    auto *p = find(o.f, k[i]);
    vp_assert(p && *p == v[l], "every key has the value of its last entry");
  }
  vp_assert(o.f.size() == count, "and there are no other keys");
  vp_cover("end");
}
// one entry in every legal form that starts with the key
template <template <typename, typename> class MapT> void entry_form(unsigned c) {
  spec_writer e, w;
  I32 k = vp_u8("k") & 0x7f, v = vp_u8("v") & 0x3f;
  auto key = [&](I32 x) { e.tag(1, 0), e.varint(static_cast<std::uint64_t>(x)); };
  auto val = [&](I32 x) { e.tag(2, 0), e.varint(spec_zigzag32(x)); };
  auto unk = [&] { e.tag(7, 2), e.varint(2), e.fixed(vp_u16("u"), 2); };
  I32 want = v;
  switch (c) {
  case 0: key(k), val(v); break;
  case 1: key(k); want = 0; break;                     // missing value
  case 2: key(k), val(v), val(5); want = 5; break;     // repeated value
  case 3: key(9), val(v), key(k); break;               // repeated key
  case 4: key(k), unk(), val(v); break;                // unknown field inside
  case 5: key(k), val(v), unk(); break;
  }
  w.tag(3, 2), w.varint(e.n), w.raw(e.b, e.n);
  w.tag(1, 0), w.varint(1); // another (unknown) field after the map
  M32<MapT> o;
  vp_assert(read_binpb(o, std::span<const std::uint8_t>(w.b, w.n)).ok(), "entry is accepted");
  auto *p = find(o.f, k);
  vp_assert(o.f.size() == 1 && p && *p == want, "key and value are the last ones in the entry, or the default");
  vp_cover("end");
}
} // namespace
//@ props=P30,P03,P08 cases=3 bound="0..2 arbitrary elements" cost=10
VP_HARNESS(h_map_flat) { roundtrip<FM>(vp_case(3)); }
//@ props=P30,P15 cases=4 bound="0..3 entries" cost=10
VP_HARNESS(h_map_flat_last) { last_wins<FM>(vp_case(4)); }
//@ props=P30 cases=6
VP_HARNESS(h_map_flat_entry) { entry_form<FM>(vp_case(6)); }
//@ props=P30,P03,P08 cases=3 bound="0..2 arbitrary elements" cost=10
VP_HARNESS(h_map_hash) { roundtrip<UM>(vp_case(3)); }
//@ props=P30,P15 cases=4 bound="0..3 entries" cost=10
VP_HARNESS(h_map_hash_last) { last_wins<UM>(vp_case(4)); }
//@ props=P30 cases=6
VP_HARNESS(h_map_hash_entry) { entry_form<UM>(vp_case(6)); }

namespace {
using NT = hp::non_owning_traits;
template <typename K, typename V> using HM = std::unordered_map<K, V>;
// string keys, message values
template <template <typename, typename> class MapT> void string_map(unsigned n) {
  using M = WithMap<MapT<std::string, Inner<stable_traits>>, std::string, Inner<stable_traits>>;
  M m;
  char k[2];
  std::uint32_t x[2];
  std::size_t want = 0;
  for (unsigned i = 0; i < n; i++) {
    k[i] = static_cast<char>(vp_u8("k") & 0x7f);
    x[i] = i ? vp_u8("x") & 0x7f : vp_u32("x");
    Inner<stable_traits> e;
    e.x = x[i];
    m.f.insert_or_assign(std::string(1, k[i]), e);
  }
  for (unsigned i = 0; i < n; i++)
    if (i + 1 == n || k[0] != k[1])
      want += 2 + 3 + 2 + (x[i] ? 1 + spec_varint_len(x[i]) : 0);
  bytevec b;
  vp_assert(wr(m, b) && b.size() == want, "every element is written as one entry with key and value");
  M o;
  vp_assert(read_binpb(o, b).ok() && o == m, "the map is preserved");
  vp_cover("end");
}
template <typename Map, typename KE, typename VE, fo VO> struct KeepMap {
  using hpp_proto_traits_type = keep_traits;
  Map f;
  [[no_unique_address]] hp::pb_unknown_fields<keep_traits> unknown_fields_;
};
template <typename Map, typename KE, typename VE, fo VO>
auto pb_meta(const KeepMap<Map, KE, VE, VO> &)
    -> std::tuple<hp::field_meta<3, &KeepMap<Map, KE, VE, VO>::f, NONE, hp::map_entry<KE, VE, NONE, VO>>,
                  hp::field_meta<UINT32_MAX, &KeepMap<Map, KE, VE, VO>::unknown_fields_>>;
using EnumMap = KeepMap<flat_map<I32, CE>, vint64_t, CE, fo::closed_enum>;
spec_writer enum_entry(I32 k, I32 v) {
  spec_writer e, w;
  e.tag(1, 0), e.varint(static_cast<std::uint64_t>(k)), e.tag(2, 0), e.varint(static_cast<std::uint64_t>(static_cast<std::int64_t>(v)));
  w.tag(3, 2), w.varint(e.n), w.raw(e.b, e.n);
  return w;
}
} // namespace
//@ props=P30,P08 cases=2 bound="0..1 elements with one-character keys" cost=10
VP_HARNESS(h_map_flat_string) { string_map<FM>(vp_case(2)); }
//@ props=P30,P08 cases=3 bound="0..2 elements with one-character keys" cost=10
VP_HARNESS(h_map_hash_string) { string_map<UM>(vp_case(3)); }
//@ props=P11,P30
// declared enumerators as map values
VP_HARNESS(h_map_closed_declared) {
  I32 k = vp_u8("k") & 0x7f, v = static_cast<I32>(vp_u32("v"));
  vp_assume(is_valid(static_cast<CE>(v)));
  auto w = enum_entry(k, v);
  EnumMap m;
  vp_assert(read_binpb(m, std::span<const std::uint8_t>(w.b, w.n)).ok(), "accepted");
  auto *p = find(m.f, k);
  vp_assert(p && static_cast<I32>(*p) == v && m.f.size() == 1, "stored");
  bytevec out;
  vp_assert(wr(m, out) && out.size() == w.n, "and written back");
  vp_cover("end");
}
//@ props=P11 kf="a map value of a closed enum type stores undeclared numbers: map<int32, closed enum> entry {key, 7}"
// the known finding, for exactly that input
VP_HARNESS(h_map_closed_undeclared) {
  auto w = enum_entry(vp_u8("k") & 0x7f, 7);
  EnumMap m;
  vp_assert(read_binpb(m, std::span<const std::uint8_t>(w.b, w.n)).ok(), "accepted");
  vp_assert(m.f.empty() && !m.unknown_fields_.fields.empty(), "the entry goes to the unknown fields");
  vp_cover("end");
}
