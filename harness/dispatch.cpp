// Field dispatch: a record sets exactly the field of its number, for every number, in a message with many fields.
#include "rich.hpp"
using namespace hpp_proto;
namespace {
constexpr std::uint32_t numbers[] = {1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 33, 300, 65537, 1048577, 536870911};
constexpr unsigned n_fields = 15;
// n_fields singular fields and a oneof
struct Wide {
  using hpp_proto_traits_type = keep_traits;
  std::uint32_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{};
  std::variant<std::monostate, std::uint32_t, std::uint32_t, std::uint32_t> o; // 4, 2048, 1048579
  [[no_unique_address]] hp::pb_unknown_fields<keep_traits> unknown_fields_;
  bool operator==(const Wide &) const = default;
  const std::uint32_t &at(unsigned i) const {
    const std::uint32_t *p[] = {&f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14};
    return *p[i];
  }
};
template <std::uint32_t N, auto F> using fm = hp::field_meta<N, F, NONE, vuint32_t>;
auto pb_meta(const Wide &)
    -> std::tuple<fm<1, &Wide::f0>, fm<2, &Wide::f1>, fm<3, &Wide::f2>, fm<5, &Wide::f3>, fm<7, &Wide::f4>, fm<8, &Wide::f5>,
                  fm<9, &Wide::f6>, fm<15, &Wide::f7>, fm<16, &Wide::f8>, fm<17, &Wide::f9>, fm<33, &Wide::f10>,
                  fm<300, &Wide::f11>, fm<65537, &Wide::f12>, fm<1048577, &Wide::f13>, fm<536870911, &Wide::f14>,
                  hp::oneof_field_meta<&Wide::o, hp::field_meta<4, 1, fo::explicit_presence, vuint32_t>,
                                       hp::field_meta<2048, 2, fo::explicit_presence, vuint32_t>,
                                       hp::field_meta<1048579, 3, fo::explicit_presence, vuint32_t>>,
                  hp::field_meta<UINT32_MAX, &Wide::unknown_fields_>>;
} // namespace
//@ props=P14,P10,P12,P05 covers=field,member,unknown
// a varint record of any field number
VP_HARNESS(h_dispatch_any) {
  const std::uint32_t num = vp_u32("number"), v = (vp_u8("v") & 0x7fU) | 1U;
  vp_assume(num >= 1 && num < (1U << 29));
  spec_writer w;
  w.tag(num, 0), w.varint(v);
  Wide m;
  vp_assert(read_binpb(m, std::span<const std::uint8_t>(w.b, w.n)).ok(), "the record is accepted");
  bool found = false;
  for (unsigned i = 0; i < n_fields; ++i) {
    const bool hit = numbers[i] == num;
    vp_assert(m.at(i) == (hit ? v : 0U), "exactly the field of that number is set");
    found |= hit;
  }
  const std::size_t alt = num == 4 ? 1 : num == 2048 ? 2 : num == 1048579 ? 3 : 0;
  vp_assert(m.o.index() == alt, "exactly the member of that number is selected");
  if (alt != 0) {
    vp_assert((alt == 1 ? std::get<1>(m.o) : alt == 2 ? std::get<2>(m.o) : std::get<3>(m.o)) == v, "and has the value");
    vp_cover("member");
  }
  bytevec out;
  vp_assert(write_binpb(m, out).ok(), "written");
  bool same = out.size() == w.n;
  for (std::size_t i = 0; i < w.n && i < out.size(); ++i)
    same &= out[i] == std::byte(w.b[i]);
  vp_assert(same, "the record is written back, as a field or verbatim");
  if (!found && alt == 0) {
    vp_assert(m.unknown_fields_.fields.size() == w.n, "a record of another number is kept as unknown");
    vp_cover("unknown");
  } else {
    vp_assert(m.unknown_fields_.fields.empty(), "a known record is not kept as unknown");
    if (found)
      vp_cover("field");
  }
}
