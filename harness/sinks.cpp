// Output through a sink (chunked, contiguous or adaptive mode, every chunk layout below) is exactly the bytes produced
// in a growable buffer; every chunk is its own heap object, so a write outside a chunk is a memory-safety violation.
#include "rich.hpp"
using namespace hpp_proto;
namespace {
struct sink {
  using slice_type = std::span<std::byte>;
  std::vector<bytevec> chunks;
  std::size_t first, step, limit; // sizes of the first and later chunks; at most `limit` bytes handed out in total
  std::size_t given = 0, announced = 0, calls = 0;
  bool empty_first = false;
  sink(std::size_t f, std::size_t s, std::size_t lim) : first(f), step(s), limit(lim) { chunks.reserve(256); }
  void set_message_size(std::size_t n) {
    announced = n;
    ++calls;
  }
  std::span<std::byte> next_chunk() {
    std::size_t k = chunks.empty() ? first : step;
    k = std::min(k, limit - given);
    if (k == 0)
      return {};
    given += k;
    chunks.emplace_back(k, std::byte{0xAA});
    return {chunks.back().data(), k};
  }
  [[nodiscard]] std::size_t chunk_size() const { return std::min(first, limit); } // guaranteed capacity of the next chunk
  // the first n bytes handed out, in order, equal b; every byte after them is untouched
  bool holds(const bytevec &b) const {
    std::size_t i = 0;
    bool ok = true;
    for (auto &c : chunks)
      for (auto x : c) {
        ok &= i < b.size() ? x == b[i] : x == std::byte{0xAA};
        ++i;
      }
    return ok && i >= b.size();
  }
};
Mix<keep_traits> some_mix() {
  Mix<keep_traits> m;
  m.a = static_cast<std::int32_t>(vp_u32("a") | 0x80000000U); // 10 bytes
  m.s.resize(3);
  vp_bytes(m.s.data(), 3, "s");
  m.p = {static_cast<std::int32_t>(vp_u8("p0")), static_cast<std::int32_t>(vp_u16("p1") | 0x2000)};
  m.rs.resize(1);
  m.rs[0].resize(2);
  vp_bytes(m.rs[0].data(), 2, "rs");
  m.m.emplace();
  m.m->x = vp_u8("x") | 0x80U;
  m.g.emplace();
  m.g->x = 1;
  m.o = vp_u16("o") | 0x4000U;
  m.fx = vp_u32("fx") | 1;
  m.unknown_fields_.fields = {std::byte{0xf8}, std::byte{1}, std::byte{5}};
  return m;
}
template <typename M, typename Opt> void same_output(const M &m, std::size_t first, std::size_t step, Opt opt) {
  bytevec b;
  vp_assert(write_binpb(m, b).ok(), "buffer serialization succeeds");
  sink s(first, step, 4096);
  vp_assert(write_binpb(m, s, opt).ok(), "sink serialization succeeds");
  vp_assert(s.calls == 1 && s.announced == b.size(), "the announced size is the encoded size");
  vp_assert(s.holds(b), "the sink receives exactly the bytes of the buffer encoding");
  vp_cover("end");
}
// a sink that hands out at most `limit` bytes in total: success exactly when the encoding fits, never a stray write
template <typename M, typename Opt> void out_of_space(const M &m, std::size_t step, std::size_t limit, Opt opt) {
  bytevec b;
  vp_assert(write_binpb(m, b).ok(), "buffer serialization succeeds");
  sink s(step, step, limit);
  auto st = write_binpb(m, s, opt);
  vp_assert(st.ok() == (b.size() <= limit), "succeeds exactly when the encoding fits the sink");
  if (st.ok())
    vp_assert(s.holds(b), "the sink receives exactly the bytes of the buffer encoding");
  vp_cover("end");
}
} // namespace
//@ props=P07,P08 cases=40 bound="one message shape with arbitrary scalars; the chunk sizes listed in the harness" cost=20 t=120
VP_HARNESS(h_sink_chunked_first) { auto m = some_mix(); same_output(m, 1 + vp_case(40), 10, chunked_mode); }
//@ props=P07,P08 cases=14 bound="one message shape with arbitrary scalars; the chunk sizes listed in the harness" cost=20 t=120
VP_HARNESS(h_sink_chunked_step) { auto m = some_mix(); auto k = 1 + vp_case(14); same_output(m, k, k, chunked_mode); }
//@ props=P07,P08 cases=56 bound="one message shape with arbitrary scalars; chunk sizes 1..56" cost=20 t=120
VP_HARNESS(h_sink_adaptive) {
  auto m = some_mix();
  auto k = 1 + vp_case(56);
  same_output(m, k, k, adaptive_mode);
}
//@ props=P07,P08 bound="one message shape with arbitrary scalars; the chunk sizes listed in the harness"
VP_HARNESS(h_sink_contiguous) { auto m = some_mix(); same_output(m, 64, 64, contiguous_mode); }
//@ props=P07 cases=46 bound="one message shape with arbitrary scalars; the chunk sizes listed in the harness" cost=20 t=120
VP_HARNESS(h_sink_limit_chunked) { auto m = some_mix(); out_of_space(m, 11, vp_case(46), chunked_mode); }
//@ props=P07 cases=56 bound="one message shape with arbitrary scalars; sink capacities 0..55" cost=20 t=120
VP_HARNESS(h_sink_limit_adaptive) {
  auto m = some_mix();
  auto k = vp_case(56);
  out_of_space(m, 64, k, adaptive_mode);
}
