// Extensions: set, get and test on owning (unordered and sorted) and view storage, and on the wire.
#include "schema.hpp"
using namespace hpp_proto;
namespace {
using I32 = std::int32_t;
template <typename Traits = stable_traits> struct Ext {
  using hpp_proto_traits_type = Traits;
  I32 a = 0;
  pb_extensions<Traits> unknown_fields_;
  status get(auto &e, auto &&...o) const { return e.get_from(*this, o...); }
  status set(const auto &e, auto &&...o) { return e.set_to(*this, o...); }
  bool has(const auto &e) const { return e.in(*this); }
  bool operator==(const Ext &) const = default;
};
template <typename T>
auto pb_meta(const Ext<T> &) -> std::tuple<field_meta<1, &Ext<T>::a, field_option::none, vint64_t>,
                                           field_meta<UINT32_MAX, &Ext<T>::unknown_fields_>>;
template <typename T> struct Sub {
  using hpp_proto_traits_type = T;
  I32 x = 0;
};
template <typename T>
auto pb_meta(const Sub<T> &) -> std::tuple<field_meta<1, &Sub<T>::x, field_option::none, vint64_t>>;
#define EXTENSION(Name, Number, Type, ...)                                                                            \
  template <typename Traits> struct Name : extension_base<Name<Traits>, Ext> {                                        \
    using value_type = Type;                                                                                          \
    value_type value = {};                                                                                            \
    using pb_meta = std::tuple<field_meta<Number, &Name<Traits>::value, __VA_ARGS__>>;                                \
  };
EXTENSION(e_int, 10, I32, field_option::explicit_presence, vint64_t)
EXTENSION(e_str, 11, typename Traits::string_t, field_option::explicit_presence)
EXTENSION(e_other, 12, I32, field_option::explicit_presence, vint64_t)
EXTENSION(e_absent, 13, I32, field_option::explicit_presence, vint64_t)
EXTENSION(e_msg, 15, Sub<Traits>, field_option::explicit_presence)
EXTENSION(e_rep, 20, typename Traits::template repeated_t<I32>, field_option::none, vint64_t)
EXTENSION(e_pack, 2047, typename Traits::template repeated_t<I32>, field_option::is_packed, vint64_t)

struct arena {
  arena() = default;
  arena(const arena &) = delete;
  arena &operator=(const arena &) = delete;
  std::vector<bytevec> blocks;
  void *allocate(std::size_t n, std::size_t) {
    blocks.emplace_back(n);
    return blocks.back().data();
  }
};
// values given to and read from an extension: a number, up to two characters, or up to two numbers
struct val {
  unsigned n = 0;
  I32 i[2] = {};
  char c[2] = {};
};
template <template <typename> class E> constexpr int kind = 0;
template <> constexpr int kind<e_str> = 1;
template <> constexpr int kind<e_msg> = 2;
template <> constexpr int kind<e_rep> = 3;
template <> constexpr int kind<e_pack> = 3;
// n values (strings, repeated) or one (others)
template <template <typename> class E> val any(unsigned n, bool wide) {
  val v;
  v.n = kind<E> == 1 || kind<E> == 3 ? n : 1;
  for (unsigned k = 0; k < v.n; k++)
    if (kind<E> == 1) v.c[k] = static_cast<char>(vp_u8("char"));
    else v.i[k] = wide ? static_cast<I32>(vp_u32("value")) : static_cast<I32>(vp_u8("value") & 127);
  return v;
}
template <template <typename> class E, typename T> E<T> make(const val &v) {
  E<T> e;
  if constexpr (kind<E> == 0) e.value = v.i[0];
  else if constexpr (kind<E> == 1) e.value = typename T::string_t(v.c, v.n);
  else if constexpr (kind<E> == 2) e.value.x = v.i[0];
  else if constexpr (std::is_same_v<T, non_owning_traits>) e.value = std::span<const I32>(v.i, v.n);
  else e.value.assign(v.i, v.i + v.n);
  return e;
}
template <template <typename> class E, typename T> bool is(const E<T> &e, const val &v) {
  if constexpr (kind<E> == 0) return e.value == v.i[0];
  else if constexpr (kind<E> == 1) {
    bool ok = e.value.size() == v.n;
    for (unsigned k = 0; ok && k < v.n; k++) ok = e.value[k] == v.c[k];
    return ok;
  } else if constexpr (kind<E> == 2) return e.value.x == v.i[0];
  else {
    bool ok = e.value.size() == v.n;
    for (unsigned k = 0; ok && k < v.n; k++) ok = e.value[k] == v.i[k];
    return ok;
  }
}
std::uint64_t u(I32 v) { return static_cast<std::uint64_t>(static_cast<std::int64_t>(v)); }
// the ordinary encoding of the extension field
template <template <typename> class E> void encode(spec_writer &w, const val &v) {
  constexpr std::uint32_t num = E<stable_traits>::number();
  if constexpr (kind<E> == 0) w.tag(num, 0), w.varint(u(v.i[0]));
  else if constexpr (kind<E> == 1) w.tag(num, 2), w.varint(v.n), w.raw(v.c, v.n);
  else if constexpr (kind<E> == 2) {
    spec_writer s;
    if (v.i[0] != 0) s.tag(1, 0), s.varint(u(v.i[0]));
    w.tag(num, 2), w.varint(s.n), w.raw(s.b, s.n);
  } else if constexpr (num == 20) for (unsigned k = 0; k < v.n; k++) w.tag(num, 0), w.varint(u(v.i[k]));
  else if (v.n) {
    spec_writer s;
    for (unsigned k = 0; k < v.n; k++) s.varint(u(v.i[k]));
    w.tag(num, 2), w.varint(s.n), w.raw(s.b, s.n);
  }
}
// set e (previously unset, or set to another value) next to a field and another extension, and read everything back
template <template <typename> class E, typename T> void set_get() {
  arena ar;
  const auto opt = alloc_from(ar);
  Ext<T> m;
  m.a = static_cast<I32>(vp_size("a", 100) + 1);
  const val other = any<e_other>(1, false);
  const bool other_first = vp_split_u64(vp_size("other first", 1)) != 0;
  if (other_first) vp_assert(m.set(make<e_other, T>(other), opt).ok(), "set succeeds");
  const bool had = vp_split_u64(vp_size("set before", 1)) != 0;
  val old, now;
  if (had) {
    old = any<E>(static_cast<unsigned>(vp_split_u64(vp_size("old length", 2))), false);
    vp_assert(m.set(make<E, T>(old), opt).ok(), "set succeeds");
  }
  if (!other_first) vp_assert(m.set(make<e_other, T>(other), opt).ok(), "set succeeds");
  now = any<E>(static_cast<unsigned>(vp_split_u64(vp_size("length", 2))), !had);
  vp_assert(m.set(make<E, T>(now), opt).ok(), "set succeeds");
  const bool present = kind<E> != 3 || now.n > 0;
  E<T> e;
  e_other<T> o;
  vp_assert(m.has(E<T>{}) == present, "has_extension answers for the value set last");
  vp_assert(m.has(e_other<T>{}) && !m.has(e_absent<T>{}), "and for the other extensions");
  vp_assert(m.get(e, opt).ok() && is(e, now), "the value set last is read back");
  vp_assert(m.get(o, opt).ok() && is(o, other), "other extensions are unaffected");
  bytevec b;
  vp_assert(write_binpb(m, b).ok(), "the message is written");
  if constexpr (std::is_same_v<T, stable_traits>) {
    spec_writer w;
    w.tag(1, 0), w.varint(u(m.a));
    if (E<T>::number() < 12) encode<E>(w, now);
    encode<e_other>(w, other);
    if (E<T>::number() > 12) encode<E>(w, now);
    vp_assert(eq_bytes(b, w), "extensions are written like ordinary fields");
  }
  Ext<T> r;
  vp_assert(read_binpb(r, b, opt).ok() && r.a == m.a, "and the message is read back");
  E<T> e2;
  e_other<T> o2;
  vp_assert(r.has(E<T>{}) == present && r.has(e_other<T>{}) && !r.has(e_absent<T>{}), "with the same extensions");
  vp_assert(r.get(e2, opt).ok() && is(e2, now) && r.get(o2, opt).ok() && is(o2, other), "of the same values");
  vp_cover("end");
}
template <typename T> void set_get_kind(unsigned c) {
  switch (c) {
  case 0: return set_get<e_int, T>();
  case 1: return set_get<e_str, T>();
  case 2: return set_get<e_msg, T>();
  case 3: return set_get<e_rep, T>();
  default: return set_get<e_pack, T>();
  }
}
} // namespace

//@ props=P25 bound="strings and lists up to length 2" cases=5 cost=20
// setting an extension replaces its previous value and nothing else (sorted storage, exact bytes)
VP_HARNESS(h_ext_set_get_sorted) { set_get_kind<stable_traits>(static_cast<unsigned>(vp_case(5))); }
//@ props=P25 bound="strings and lists up to length 2" cases=5 cost=20
// the same for hashed storage
VP_HARNESS(h_ext_set_get_hashed) { set_get_kind<default_traits>(static_cast<unsigned>(vp_case(5))); }
//@ props=P25 bound="strings and lists up to length 2" cases=5 cost=20
// the same for view storage
VP_HARNESS(h_ext_set_get_view) { set_get_kind<non_owning_traits>(static_cast<unsigned>(vp_case(5))); }
namespace {
template <typename T> void wire() {
  arena ar;
  const auto opt = alloc_from(ar);
  spec_writer w;
  I32 r[3], x[2], i[2];
  for (auto &v : r) v = static_cast<I32>(vp_u8("rep") & 127);
  for (auto &v : x) v = static_cast<I32>(vp_u8("sub") & 127);
  for (auto &v : i) v = static_cast<I32>(vp_u8("int") & 127);
  const auto a = static_cast<I32>(vp_u8("a") & 127);
  const auto c = static_cast<char>(vp_u8("char"));
  auto var = [&](std::uint32_t n, I32 v) { w.tag(n, 0), w.varint(u(v)); };
  auto sub = [&](I32 v) { w.tag(15, 2), w.varint(2), w.tag(1, 0), w.varint(u(v)); };
  var(20, r[0]), sub(x[0]), var(10, i[0]), var(1, a), w.tag(20, 2), w.varint(1), w.varint(u(r[1])), var(30, 5);
  w.tag(11, 2), w.varint(1), w.raw("x", 1), var(10, i[1]), w.tag(15, 2), w.varint(0), w.tag(11, 2), w.varint(1), w.raw(&c, 1);
  sub(x[1]), var(20, r[2]);
  Ext<T> m;
  vp_assert(read_binpb(m, std::span<const std::uint8_t>(w.b, w.n), opt).ok() && m.a == a, "the message is read");
  e_rep<T> rep;
  e_msg<T> msg;
  e_int<T> num;
  e_str<T> str;
  e_absent<T> absent;
  absent.value = 7;
  vp_assert(m.has(rep) && m.has(msg) && m.has(num) && m.has(str) && !m.has(absent) && !m.has(e_pack<T>{}), "the extensions found are present");
  vp_assert(m.get(rep, opt).ok() && rep.value.size() == 3 && rep.value[0] == r[0] &&
                rep.value[1] == r[1] && rep.value[2] == r[2], "all occurrences of a repeated extension, packed or not, in order");
  vp_assert(m.get(msg, opt).ok() && msg.value.x == x[1], "occurrences of a message extension are merged");
  vp_assert(m.get(num, opt).ok() && num.value == i[1], "the last occurrence of a scalar extension");
  vp_assert(m.get(str, opt).ok() && str.value.size() == 1 && str.value[0] == c, "the last occurrence of a string extension");
  vp_assert(m.get(absent, opt).ok() && absent.value == 7, "an absent extension is not touched");
  bytevec b;
  vp_assert(write_binpb(m, b).ok(), "the message is written");
  vp_assert(b.size() == w.n - (a == 0 ? 2 : 0), "with every extension retained, known or not");
  Ext<T> m2;
  e_rep<T> rep2;
  e_msg<T> msg2;
  vp_assert(read_binpb(m2, b, opt).ok() && m2.a == a && m2.get(rep2, opt).ok() && rep2.value.size() == 3 && rep2.value[2] == r[2] &&
                m2.get(msg2, opt).ok() && msg2.value.x == x[1], "and reads back the same");
  vp_cover("end");
}
// a message extension found on the wire with arbitrary content
template <typename T> void payload(unsigned n) {
  arena ar;
  const auto opt = alloc_from(ar);
  spec_writer w;
  std::uint8_t p[8] = {};
  vp_bytes(p, n, "payload");
  w.tag(15, 2), w.varint(n), w.raw(p, n);
  Ext<T> m;
  vp_assert(read_binpb(m, std::span<const std::uint8_t>(w.b, w.n), opt).ok(), "extensions are not parsed before they are asked for");
  e_msg<T> e;
  Sub<T> s;
  const bool valid = read_binpb(s, std::span<const std::uint8_t>(p, n), opt).ok();
  const bool ok = m.get(e, opt).ok();
  vp_assert(ok == valid, "an extension is read exactly when its content is valid");
  if (ok) vp_assert(e.value.x == s.x, "with the value of the content");
  bytevec b;
  vp_assert(write_binpb(m, b).ok() && eq_bytes(b, w), "the bytes are retained");
  vp_cover("end");
}
} // namespace
//@ props=P25 bound="one fixed structure of 10 fields" cases=3 cost=20
// extensions found on the wire are retained per field number and merged in order
VP_HARNESS(h_ext_wire) {
  switch (vp_case(3)) {
  case 0: return wire<stable_traits>();
  case 1: return wire<default_traits>();
  default: return wire<non_owning_traits>();
  }
}
//@ props=P25 bound="content up to 3 bytes" tbound="content up to 5 bytes" cases=8 tcases=12 cost=20
// arbitrary content of a message extension
VP_HARNESS(h_ext_payload) {
  const auto c = static_cast<unsigned>(vp_case(12));
  if (c % 2) payload<non_owning_traits>(c / 2);
  else payload<stable_traits>(c / 2);
}
