// Decoding into view types (non_owning_traits: string_view / span, storage from a memory resource) and decoding with
// padded_input give the same outcome as decoding into owning containers from an ordinary buffer.
#include "refdec.hpp"
using namespace hpp_proto;
namespace {
using view_traits = hp::keep_unknown_fields<hp::non_owning_traits>;
// every allocation is its own heap object: out-of-bounds use of arena storage is a memory-safety violation
struct arena {
  arena() = default;
  arena(const arena &) = delete;
  arena &operator=(const arena &) = delete;
  std::vector<bytevec> blocks;
  void *allocate(std::size_t n, std::size_t) {
    blocks.emplace_back(n);
    return blocks.back().data();
  }
};
template <typename A, typename B> bool seq(const A &a, const B &b) { return ref::bytes_equal(a.data(), a.size(), b.data(), b.size()); }
template <typename T, typename U> bool eq(const Inner<T> &a, const Inner<U> &b) {
  return a.x == b.x && seq(a.s, b.s);
}
template <typename T, typename U> bool eq(const std::optional<Inner<T>> &a, const std::optional<Inner<U>> &b) {
  return a.has_value() == b.has_value() && (!a.has_value() || eq(*a, *b));
}
template <typename T, typename U> bool eq(const Mix<T> &a, const Mix<U> &b) {
  if (a.p.size() != b.p.size() || a.rs.size() != b.rs.size() || a.o.index() != b.o.index())
    return false;
  bool ok = a.a == b.a && seq(a.s, b.s) && eq(a.m, b.m) && eq(a.g, b.g) && a.fx == b.fx &&
            seq(a.unknown_fields_.fields, b.unknown_fields_.fields);
  for (std::size_t i = 0; i < a.p.size(); i++)
    ok &= a.p[i] == b.p[i];
  for (std::size_t i = 0; i < a.rs.size(); i++)
    ok &= seq(a.rs[i], b.rs[i]);
  if (a.o.index() == 1)
    ok &= std::get<1>(a.o) == std::get<1>(b.o);
  if (a.o.index() == 2)
    ok &= seq(std::get<2>(a.o), std::get<2>(b.o));
  return ok;
}
template <typename T, typename U> bool eq(const Node<T> &a, const Node<U> &b) {
  return a.v == b.v && a.next.has_value() == b.next.has_value() && (!a.next.has_value() || eq(*a.next, *b.next));
}
template <typename T, typename U> bool eq(const Tree<T> &a, const Tree<U> &b) {
  bool ok = a.v == b.v && a.kids.size() == b.kids.size();
  for (std::size_t i = 0; ok && i < a.kids.size(); i++)
    ok = eq(a.kids[i], b.kids[i]);
  return ok;
}
template <typename T, typename U> bool eq(const Choice<T> &a, const Choice<U> &b) {
  if (a.o.index() != b.o.index() || !seq(a.unknown_fields_.fields, b.unknown_fields_.fields))
    return false;
  switch (a.o.index()) {
  case 1: return std::get<1>(a.o) == std::get<1>(b.o);
  case 2: return seq(std::get<2>(a.o), std::get<2>(b.o));
  case 3: return eq(std::get<3>(a.o), std::get<3>(b.o));
  case 4: return std::get<4>(a.o) == std::get<4>(b.o);
  case 5: return std::get<5>(a.o) == std::get<5>(b.o);
  default: return true;
  }
}
// closed enums in every repeated position, and packed fixed-width / bool lists
template <typename Traits> struct Lists {
  using hpp_proto_traits_type = Traits;
  typename Traits::template repeated_t<CE> pe;                 // 1 packed closed
  typename Traits::template repeated_t<CE> ue;                 // 2 unpacked closed
  typename Traits::template repeated_t<std::uint64_t> pf;      // 3 packed fixed64
  typename Traits::template repeated_t<hpp_proto::boolean> pb; // 4 packed bool
  typename Traits::template repeated_t<std::uint32_t> uv;      // 5 unpacked varint
  typename Traits::template repeated_t<Inner<Traits>> rm;      // 6 messages
  typename Traits::template repeated_t<Inner<Traits>> rg;      // 7 groups
  typename Traits::bytes_t y;                                  // 8
  [[no_unique_address]] hp::pb_unknown_fields<Traits> unknown_fields_;
};
template <typename Traits>
auto pb_meta(const Lists<Traits> &) -> std::tuple<
    hp::field_meta<1, &Lists<Traits>::pe, fo::is_packed | fo::closed_enum>, hp::field_meta<2, &Lists<Traits>::ue, fo::closed_enum>,
    hp::field_meta<3, &Lists<Traits>::pf, fo::is_packed>, hp::field_meta<4, &Lists<Traits>::pb, fo::is_packed, bool>,
    hp::field_meta<5, &Lists<Traits>::uv, fo::none, hp::vuint32_t>, hp::field_meta<6, &Lists<Traits>::rm, fo::none>,
    hp::field_meta<7, &Lists<Traits>::rg, fo::group>, hp::field_meta<8, &Lists<Traits>::y, fo::none>,
    hp::field_meta<UINT32_MAX, &Lists<Traits>::unknown_fields_>>;
template <typename A, typename B> bool elems(const A &a, const B &b) {
  bool ok = a.size() == b.size();
  for (std::size_t i = 0; ok && i < a.size(); i++)
    if constexpr (requires { eq(a[i], b[i]); })
      ok = eq(a[i], b[i]);
    else
      ok = a[i] == b[i];
  return ok;
}
template <typename T, typename U> bool eq(const Lists<T> &a, const Lists<U> &b) {
  return elems(a.pe, b.pe) && elems(a.ue, b.ue) && elems(a.pf, b.pf) && elems(a.pb, b.pb) && elems(a.uv, b.uv) &&
         elems(a.rm, b.rm) && elems(a.rg, b.rg) && seq(a.y, b.y) &&
         seq(a.unknown_fields_.fields, b.unknown_fields_.fields);
}
// view decode == owning decode, from the same exact-size buffer; and its encoding is the same
template <template <typename> class M, typename OT, typename VT> void same_as_owning_of(std::span<const std::byte> in) {
  arena mr;
  M<OT> a;
  M<VT> b;
  auto sa = read_binpb(a, in);
  auto sb = read_binpb(b, in, alloc_from{mr});
  vp_assert(sa.ec == sb.ec, "view decoding gives the same status as owning decoding");
  if (sa.ok()) {
    vp_assert(eq(a, b), "view decoding gives the same message as owning decoding");
    bytevec x, y;
    vp_assert(write_binpb(a, x).ok() && write_binpb(b, y).ok() && same(x, y), "and the same encoding");
    vp_cover("accepted");
  } else
    vp_cover("rejected");
}
template <template <typename> class M, typename OT, typename VT> void same_as_owning(std::size_t n) {
  auto *p = vp_buffer(n, "input");
  same_as_owning_of<M, OT, VT>({p, n});
}
// padded input: 16 readable bytes follow the payload, the first of them zero, the others arbitrary
template <typename A, typename... O> void same_as_unpadded_of(std::byte *q, std::size_t n, O... o) {
  q[n] = std::byte{0};
  auto *p = vp_buffer(n, "copy");
  for (std::size_t i = 0; i < n; i++)
    p[i] = q[i];
  A a, b;
  auto sa = read_binpb(a, std::span<const std::byte>(p, n), o...);
  auto sb = read_binpb(b, std::span<const std::byte>(q, n), padded_input, o...);
  vp_assert(sa.ec == sb.ec, "padded input gives the same status");
  if (sa.ok()) {
    vp_assert(eq(a, b), "padded input gives the same message");
    vp_cover("accepted");
  } else
    vp_cover("rejected");
}
template <typename A, typename... O> void same_as_unpadded(std::size_t n, O... o) {
  same_as_unpadded_of<A>(vp_buffer(n + 16, "input"), n, o...);
}
// Skeletons of well-formed messages: concrete structure, arbitrary payload bytes (marked ..).  They are concatenated in
// pairs, so every field occurs repeatedly and every state is merged into.
struct skeleton {
  std::uint8_t b[160];
  unsigned n = 0;
  void put(const char *hex) {
    auto d = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (; *hex; hex += 2) {
      if (*hex == '.')
        vp_bytes(b + n, 1, "payload"); // any byte
      else if (*hex == '_') {          // any one-byte varint
        vp_bytes(b + n, 1, "varint");
        b[n] &= 0x7f;
      } else
        b[n] = static_cast<std::uint8_t>(d(hex[0]) * 16 + d(hex[1]));
      ++n;
    }
  }
  std::span<const std::byte> exact() const { // a heap object of exactly the content
    auto *p = vp_buffer(n, "exact");
    std::memcpy(p, b, n);
    return {p, n};
  }
  std::byte *padded() const {
    auto *p = vp_buffer(n + 16, "padded");
    std::memcpy(p, b, n);
    return p;
  }
};
constexpr const char *node_parts[] = {"08__1204" "08__1200", "1206" "12040801" "1200", "1200", "120408__08__"};
constexpr const char *tree_parts[] = {"08__1202" "08__1200", "1206" "1202" "08__08__", "1208" "1200" "1202" "08__" "1200"};
constexpr const char *mix_parts[] = {"08__" "1202...." "1a02____" "2201.." "2a0408__1200", "2a0512030a..08" "3308__34" "2200" "38__",
                                     "331201..34" "4201.." "8501........" "f80101", "1200" "38__" "4200" "1a03____80" "f80105" "f80106"};
constexpr const char *choice_parts[] = {"08__", "1201..", "1a0408__1200", "20__", "a001__", "1a041202....", "f80107", "1200"};
constexpr const char *list_parts[] = {"0a0302__02", "10__1002", "1a10................" "................", "22030100__" "28052801",
                                      "320208__3200", "3b08__3c3b3c" "4202....", "10020a0100" "2901" "00000000000000",
                                      "4200" "0a040500__02" "2201__", "3b3c" "3208" "12021a1a" "1a00" "0805"};
template <std::size_t N> skeleton pair_of(const char *const (&parts)[N], std::uint64_t c) {
  skeleton s;
  s.put(parts[c % N]);
  s.put(parts[c / N]);
  return s;
}
template <template <typename> class M, typename OT, typename VT> void merged(const skeleton &s) {
  same_as_owning_of<M, OT, VT>(s.exact());
  same_as_unpadded_of<M<OT>>(s.padded(), s.n);
  arena mr;
  same_as_unpadded_of<M<VT>>(s.padded(), s.n, alloc_from{mr});
  vp_cover("end");
}
} // namespace
//@ props=P23 cases=4 tcases=5 bound="every input of 0..3 bytes (thorough: 4)" covers=accepted,rejected cost=40 t=300
VP_HARNESS(h_view_inner) { same_as_owning<Inner, keep_traits, view_traits>(vp_case(5)); }
//@ props=P23 cases=4 bound="every input of 0..3 bytes" covers=accepted,rejected cost=40 t=300
VP_HARNESS(h_view_mix) { same_as_owning<Mix, keep_traits, view_traits>(vp_case(4)); }
//@ props=P23 cases=5 bound="every input of 0..4 bytes" covers=accepted,rejected cost=40 t=300
VP_HARNESS(h_view_node) { same_as_owning<Node, default_traits, non_owning_traits>(vp_case(5)); }
//@ props=P23 cases=5 bound="every input of 0..4 bytes" covers=accepted,rejected cost=40 t=300
VP_HARNESS(h_view_tree) { same_as_owning<Tree, default_traits, non_owning_traits>(vp_case(5)); }
//@ props=P24 cases=4 tcases=5 bound="every input of 0..3 bytes (thorough: 4)" covers=accepted,rejected cost=40 t=300
VP_HARNESS(h_padded_inner) { same_as_unpadded<Inner<keep_traits>>(vp_case(5)); }
//@ props=P24 cases=4 bound="every input of 0..3 bytes" covers=accepted,rejected cost=40 t=300
VP_HARNESS(h_padded_mix) { same_as_unpadded<Mix<keep_traits>>(vp_case(4)); }
//@ props=P24,P23 cases=4 bound="every input of 0..3 bytes" covers=accepted,rejected cost=40 t=300
VP_HARNESS(h_padded_view) { arena mr; same_as_unpadded<Mix<view_traits>>(vp_case(4), alloc_from{mr}); }
//@ props=P23,P24 cases=16 bound="pairs of message fragments, every payload byte arbitrary" covers=accepted,end cost=10
VP_HARNESS(h_view_merge_node) { merged<Node, default_traits, non_owning_traits>(pair_of(node_parts, vp_case(16))); }
//@ props=P23,P24 cases=9 bound="pairs of message fragments, every payload byte arbitrary" covers=accepted,end cost=10
VP_HARNESS(h_view_merge_tree) { merged<Tree, default_traits, non_owning_traits>(pair_of(tree_parts, vp_case(9))); }
//@ props=P23,P24 cases=16 bound="pairs of message fragments, every payload byte arbitrary" covers=accepted,end cost=10
VP_HARNESS(h_view_merge_mix) { merged<Mix, keep_traits, view_traits>(pair_of(mix_parts, vp_case(16))); }
//@ props=P23,P24 cases=64 bound="pairs of message fragments, every payload byte arbitrary" covers=accepted,end cost=10
VP_HARNESS(h_view_merge_choice) { merged<Choice, keep_traits, view_traits>(pair_of(choice_parts, vp_case(64))); }
//@ props=P23,P24 cases=81 bound="pairs of message fragments, every payload byte arbitrary" covers=accepted,end cost=10
VP_HARNESS(h_view_merge_lists) { merged<Lists, keep_traits, view_traits>(pair_of(list_parts, vp_case(81))); }
