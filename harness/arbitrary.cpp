// Decoding arbitrary bytes: every byte string of the stated length, into messages with every structural feature.
// Memory safety, no exception, UBSan conditions and termination are implicit obligations of every path.
#include "refdec.hpp"
using namespace hpp_proto;
namespace {
template <typename M, typename... O> status decode(M &m, std::size_t n, O &&...o) {
  auto *p = vp_buffer(n, "input");
  return read_binpb(m, std::span<const std::byte>(p, n), std::forward<O>(o)...);
}
// total decoding contract: accepted exactly when the reference decoder accepts, with the value it computes; an
// accepted input re-encodes, and its encoding decodes to the same message
template <typename M, typename S> void total(std::size_t n, auto value) {
  auto *p = vp_buffer(n, "input");
  M m;
  auto st = read_binpb(m, std::span<const std::byte>(p, n));
  const ref::result r = ref::decode<S>(p, n);
  if (!st.ok()) {
    vp_assert(!r.ok || r.mismatch, "well-formed input is accepted");
    vp_cover("rejected");
    return;
  }
  vp_assert(r.ok, "only well-formed input is accepted");
  vp_assert(value(m, r, p), "the decoded value is the specified one");
  bytevec buf;
  vp_assert(write_binpb(m, buf).ok(), "an accepted message can be written");
  M o;
  vp_assert(read_binpb(o, buf).ok(), "and read again");
  vp_assert(o == m, "with the same value");
  vp_cover("accepted");
}
bool same_range(const auto &s, const ref::result &r, unsigned f, const std::byte *p) {
  return ref::bytes_equal(s.data(), s.size(), p + r.off[f], r.len[f]);
}
constexpr auto u32_value = [](auto &m, const ref::result &r, const std::byte *) {
  return m.f == static_cast<std::uint32_t>(r.val[1]) && 
         ref::bytes_equal(m.unknown_fields_.fields.data(), m.unknown_fields_.fields.size(), r.unk, r.nunk);
};
constexpr auto inner_value = [](auto &m, const ref::result &r, const std::byte *p) {
  return m.x == static_cast<std::uint32_t>(r.val[1]) && same_range(m.s, r, 2, p);
};
constexpr auto node_value = [](auto &m, const ref::result &r, const std::byte *) {
  return m.v == static_cast<std::uint32_t>(r.val[1]) && m.next.has_value() == (r.cnt[2] != 0);
};
constexpr auto tree_value = [](auto &m, const ref::result &r, const std::byte *) {
  return m.v == static_cast<std::uint32_t>(r.val[1]) && m.kids.size() == r.cnt[2];
};
constexpr auto choice_value = [](auto &m, const ref::result &r, const std::byte *) {
  return (m.o.index() != 0 || (r.cnt[1] + r.cnt[2] + r.cnt[3]) == 0) &&
         (m.o.index() != 1 || (r.cnt[1] && std::get<1>(m.o) == static_cast<std::uint32_t>(r.val[1]))) &&
         (m.o.index() != 2 || r.cnt[2]) && (m.o.index() != 3 || r.cnt[3]) && (m.o.index() != 4 || r.cnt[4]);
};
constexpr auto mix_value = [](auto &m, const ref::result &r, const std::byte *p) {
  return m.a.has_value() == (r.cnt[1] != 0) && (!m.a.has_value() || *m.a == static_cast<std::int32_t>(r.val[1])) &&
         same_range(m.s, r, 2, p) && m.p.size() == r.cnt[3] && m.rs.size() == r.cnt[4] &&
         m.m.has_value() == (r.cnt[5] != 0) && m.g.has_value() == (r.cnt[6] != 0) &&
         (m.o.index() != 0) == (r.cnt[7] + r.cnt[8] != 0) && (m.o.index() != 1 || r.cnt[7]) &&
         (m.o.index() != 2 || r.cnt[8]);
};
} // namespace
//@ props=P05 cases=6 tcases=6 bound="every input of 0..5 bytes" tbound="every input of 0..5 bytes" covers=accepted,rejected cost=30 t=300
VP_HARNESS(h_any_one_u32) { total<Keep<std::uint32_t, NONE, vuint32_t, 1>, ref::u32>(vp_case(7), u32_value); }
//@ props=P05 cases=5 tcases=6 bound="every input of 0..4 bytes" tbound="every input of 0..5 bytes" covers=accepted,rejected cost=30 t=300
VP_HARNESS(h_any_inner) { total<Inner<>, ref::inner>(vp_case(7), inner_value); }
//@ props=P05 cases=4 tcases=5 bound="every input of 0..3 bytes" tbound="every input of 0..4 bytes" covers=accepted,rejected cost=30 t=300
VP_HARNESS(h_any_mix) { total<Mix<>, ref::mix>(vp_case(6), mix_value); }
//@ props=P05 cases=5 tcases=5 bound="every input of 0..4 bytes" tbound="every input of 0..4 bytes" covers=accepted,rejected cost=30 t=300
VP_HARNESS(h_any_choice) { total<Choice<default_traits>, ref::choice>(vp_case(6), choice_value); }
//@ props=P05 cases=5 tcases=6 bound="every input of 0..4 bytes" tbound="every input of 0..5 bytes" covers=accepted,rejected cost=30 t=300
VP_HARNESS(h_any_node) { total<Node<>, ref::node>(vp_case(7), node_value); }
//@ props=P05 cases=5 tcases=6 bound="every input of 0..4 bytes" tbound="every input of 0..5 bytes" covers=accepted,rejected cost=30 t=300
VP_HARNESS(h_any_tree) { total<Tree<>, ref::node>(vp_case(7), tree_value); }
