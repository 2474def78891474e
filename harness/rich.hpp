// A message with every structural feature, in the shape protoc-gen-hpp emits.
#pragma once
#include "schema.hpp"
enum class CE : std::int32_t { A = 0, B = 2, C = 300, N = -1 };
constexpr bool is_valid(CE v) {
  int i = static_cast<int>(v);
  return i == 0 || i == 2 || i == 300 || i == -1;
}
template <typename Traits = hp::default_traits> struct Inner {
  using hpp_proto_traits_type = Traits;
  std::uint32_t x{};
  typename Traits::string_t s{};
  [[no_unique_address]] hp::pb_unknown_fields<Traits> unknown_fields_;
  bool operator==(const Inner &) const = default;
};
template <typename Traits>
auto pb_meta(const Inner<Traits> &)
    -> std::tuple<hp::field_meta<1, &Inner<Traits>::x, fo::none, hp::vuint32_t>, hp::field_meta<2, &Inner<Traits>::s, fo::none>,
                  hp::field_meta<UINT32_MAX, &Inner<Traits>::unknown_fields_>>;
template <typename Traits> constexpr auto message_type_url(const Inner<Traits> &) {
  return hp::string_literal<"type.googleapis.com/vp.Inner">{};
}
// recursive message: next through optional_indirect, kids repeated
template <typename Traits = hp::default_traits> struct Node {
  using hpp_proto_traits_type = Traits;
  std::uint32_t v{};
  typename Traits::template optional_indirect_t<Node> next;
  bool operator==(const Node &) const = default;
};
template <typename Traits>
auto pb_meta(const Node<Traits> &) -> std::tuple<hp::field_meta<1, &Node<Traits>::v, fo::none, hp::vuint32_t>,
                                                hp::field_meta<2, &Node<Traits>::next, fo::explicit_presence>>;
template <typename Traits = hp::default_traits> struct Tree {
  using hpp_proto_traits_type = Traits;
  std::uint32_t v{};
  typename Traits::template recursive_repeated_t<Tree> kids;
  bool operator==(const Tree &) const = default;
};
template <typename Traits>
auto pb_meta(const Tree<Traits> &) -> std::tuple<hp::field_meta<1, &Tree<Traits>::v, fo::none, hp::vuint32_t>,
                                                hp::field_meta<2, &Tree<Traits>::kids, fo::none>>;
// generic single-field wrapper with traits and retained unknown fields
template <typename T, fo Opt, typename Enc = void, std::uint32_t Num = 1, typename Traits = hp::keep_unknown_fields<hp::default_traits>>
struct Keep {
  using hpp_proto_traits_type = Traits;
  T f{};
  [[no_unique_address]] hp::pb_unknown_fields<Traits> unknown_fields_;
  bool operator==(const Keep &) const = default;
};
template <typename T, fo Opt, typename Enc, std::uint32_t Num, typename Traits>
auto pb_meta(const Keep<T, Opt, Enc, Num, Traits> &)
    -> std::tuple<hp::field_meta<Num, &Keep<T, Opt, Enc, Num, Traits>::f, Opt, Enc>,
                  hp::field_meta<UINT32_MAX, &Keep<T, Opt, Enc, Num, Traits>::unknown_fields_>>;
// oneof { uint32 u = 1; string s = 2; Inner m = 3; CE e = 4 (closed); sint32 z = 20; group g = 21 }
template <typename Traits = hp::keep_unknown_fields<hp::default_traits>> struct Choice {
  using hpp_proto_traits_type = Traits;
  std::variant<std::monostate, std::uint32_t, typename Traits::string_t, Inner<Traits>, CE, std::int32_t> o;
  [[no_unique_address]] hp::pb_unknown_fields<Traits> unknown_fields_;
  bool operator==(const Choice &) const = default;
};
template <typename Traits>
auto pb_meta(const Choice<Traits> &) -> std::tuple<
    hp::oneof_field_meta<&Choice<Traits>::o, hp::field_meta<1, 1, fo::explicit_presence, hp::vuint32_t>,
                         hp::field_meta<2, 2, fo::explicit_presence>, hp::field_meta<3, 3, fo::explicit_presence>,
                         hp::field_meta<4, 4, fo::explicit_presence | fo::closed_enum>,
                         hp::field_meta<20, 5, fo::explicit_presence, hp::vsint32_t>>,
    hp::field_meta<UINT32_MAX, &Choice<Traits>::unknown_fields_>>;
template <typename Traits = hp::default_traits> struct Mix {
  using hpp_proto_traits_type = Traits;
  hp::optional<std::int32_t> a;                                        // 1
  typename Traits::string_t s;                                         // 2
  typename Traits::template repeated_t<std::int32_t> p;                // 3 packed sint32
  typename Traits::template repeated_t<typename Traits::string_t> rs;  // 4
  std::optional<Inner<Traits>> m;                                      // 5
  std::optional<Inner<Traits>> g;                                      // 6 group
  std::variant<std::monostate, std::uint32_t, typename Traits::string_t> o; // 7, 8
  std::uint32_t fx{};                                                  // 16 fixed32
  [[no_unique_address]] hp::pb_unknown_fields<Traits> unknown_fields_;
  bool operator==(const Mix &) const = default;
};
template <typename Traits>
auto pb_meta(const Mix<Traits> &)
    -> std::tuple<hp::field_meta<1, &Mix<Traits>::a, fo::explicit_presence, hp::vint64_t>,
                  hp::field_meta<2, &Mix<Traits>::s, fo::none>, hp::field_meta<3, &Mix<Traits>::p, fo::is_packed, hp::vsint32_t>,
                  hp::field_meta<4, &Mix<Traits>::rs, fo::none>, hp::field_meta<5, &Mix<Traits>::m, fo::explicit_presence>,
                  hp::field_meta<6, &Mix<Traits>::g, fo::explicit_presence | fo::group>,
                  hp::oneof_field_meta<&Mix<Traits>::o, hp::field_meta<7, 1, fo::explicit_presence, hp::vuint32_t>,
                                       hp::field_meta<8, 2, fo::explicit_presence>>,
                  hp::field_meta<16, &Mix<Traits>::fx, fo::none>, hp::field_meta<UINT32_MAX, &Mix<Traits>::unknown_fields_>>;
template <typename Traits> constexpr auto message_type_url(const Mix<Traits> &) {
  return hp::string_literal<"type.googleapis.com/vp.Mix">{};
}
using keep_traits = hp::keep_unknown_fields<hp::default_traits>;
// arbitrary string of symbolic length <= max
inline std::string any_string(std::size_t max, const char *nm = "str") {
  std::size_t n = vp_size(nm, max);
  auto *p = reinterpret_cast<char *>(vp_buffer(n, nm));
  return std::string(p, p + n);
}
inline bytevec any_bytes(std::size_t max, const char *nm = "bytes") {
  std::size_t n = vp_size(nm, max);
  auto *p = vp_buffer(n, nm);
  return bytevec(p, p + n);
}
// the first k elements of a concrete-length reference equal the vector
inline bool same(const bytevec &a, const bytevec &b) {
  if (a.size() != b.size())
    return false;
  return a.empty() || std::memcmp(a.data(), b.data(), a.size()) == 0;
}
