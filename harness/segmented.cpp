// Input given as a list of segments decodes exactly like the same bytes in one contiguous buffer.  Segments longer
// than the slope (16 bytes) are read in place, shorter ones are merged into patch buffers, so the cut positions below
// cover: inside a tag / length / varint / fixed-width value / string / packed list / nested message / group / unknown
// field, at a field boundary, in the slope and outside it, empty segments, and many tiny segments.
#include "refdec.hpp"
using namespace hpp_proto;
namespace {
using seg = std::span<const std::byte>;
template <typename M> void same_as_contiguous(const std::byte *p, std::size_t n, std::span<const seg> segs) {
  M a, b;
  auto sa = read_binpb(a, seg(p, n));
  auto sb = read_binpb(b, segs);
  vp_assert(sa.ec == sb.ec, "segmented input gives the same status as the contiguous bytes");
  if (sa.ok())
    vp_assert(a == b, "segmented input decodes to the same message");
  vp_cover("end");
}
// every segment is its own heap object: reading across its end is a memory-safety violation
struct cutter {
  std::vector<seg> s;
  const std::byte *p;
  std::vector<bytevec> own;
  explicit cutter(const std::byte *q) : p(q) { own.reserve(64); }
  void add(std::size_t from, std::size_t to) {
    own.emplace_back(p + from, p + to);
    s.emplace_back(own.back().data(), own.back().size());
  }
};
template <typename M> void two_cuts(const std::byte *p, std::size_t n, std::size_t c1, std::size_t c2) {
  cutter c(p);
  c.add(0, c1);
  c.add(c1, c2);
  c.add(c2, n);
  same_as_contiguous<M>(p, n, std::span<const seg>(c.s.data(), c.s.size()));
}
template <typename M> void pieces(const std::byte *p, std::size_t n, std::size_t k, std::size_t first) {
  cutter c(p);
  std::size_t i = std::min(first, n);
  c.add(0, i);
  for (; i < n; i += k)
    c.add(i, std::min(i + k, n));
  c.add(n, n);
  same_as_contiguous<M>(p, n, std::span<const seg>(c.s.data(), c.s.size()));
}
// A well-formed message whose every scalar is arbitrary (encoded at its full width so that offsets are fixed).
struct builder {
  spec_writer w;
  void wide(std::uint64_t v, unsigned len) { // non-minimal varint of exactly len bytes
    for (unsigned i = 0; i < len; i++)
      w.b[w.n++] = static_cast<std::uint8_t>(((v >> (7 * i)) & 0x7f) | (i + 1 < len ? 0x80 : 0));
  }
  void any(unsigned k) {
    vp_bytes(w.b + w.n, k, "content");
    w.n += k;
  }
};
builder full_mix() {
  builder b;
  auto &w = b.w;
  w.tag(2, 2), w.varint(7), b.any(7);                        // s            0..9
  w.tag(1, 0), b.wide(vp_u32("a"), 5);                       // a            9..15
  w.tag(3, 2), w.varint(8), b.wide(vp_u32("p0"), 5), b.wide(vp_u16("p1"), 3); // packed 15..25
  w.tag(16, 5), w.fixed(vp_u32("fx"), 4);                    // fixed32     25..31
  w.tag(5, 2), w.varint(10), w.tag(1, 0), b.wide(vp_u32("x"), 5), w.tag(2, 2), w.varint(2), b.any(2); // nested 31..43
  w.tag(6, 3), w.tag(1, 0), b.wide(vp_u16("y"), 3), w.tag(6, 4);                                   // group 43..49
  w.tag(30, 2), w.varint(3), b.any(3);                       // unknown     49..55
  w.tag(4, 2), w.varint(4), b.any(4);                        // rs          55..61
  w.tag(4, 2), w.varint(1), b.any(1);                        // rs          61..64
  w.tag(8, 2), w.varint(1), b.any(1);                        // oneof       64..67
  return b;
}
} // namespace
//@ props=P06 cases=68 bound="the message shape and cut positions of the harness, every scalar arbitrary" cost=40 t=120
// one cut at every position of a message with every structural feature, every scalar arbitrary
VP_HARNESS(h_seg_one_cut) {
  builder b = full_mix();
  std::size_t cut = vp_case(68);
  two_cuts<Mix<keep_traits>>(reinterpret_cast<const std::byte *>(b.w.b), b.w.n, cut, b.w.n);
}
//@ props=P06 cases=34 bound="the message shape and cut positions of the harness, every scalar arbitrary" cost=40 t=120
// a middle segment of 17 bytes (one byte longer than the slope), starting everywhere
VP_HARNESS(h_seg_mid17) {
  builder b = full_mix();
  std::size_t cut = vp_case(34);
  two_cuts<Mix<keep_traits>>(reinterpret_cast<const std::byte *>(b.w.b), b.w.n, cut, cut + 17);
}
//@ props=P06 cases=24 bound="the message shape and cut positions of the harness, every scalar arbitrary" cost=40 t=120
// tiny segments of 1..4, 15..18 bytes after a first segment of 0, 17 or 33 bytes
VP_HARNESS(h_seg_pieces) {
  builder b = full_mix();
  std::uint64_t c = vp_case(24);
  static const std::size_t ks[] = {1, 2, 3, 4, 15, 16, 17, 18};
  static const std::size_t fs[] = {0, 17, 33};
  pieces<Mix<keep_traits>>(reinterpret_cast<const std::byte *>(b.w.b), b.w.n, ks[c % 8], fs[c / 8]);
}
namespace {
// 20 fixed bytes, then `n` arbitrary bytes, then 18 fixed bytes: any well- or ill-formed continuation, cut around it
template <typename M> void window(std::size_t n, std::size_t cut, std::size_t second) {
  spec_writer w;
  w.tag(2, 2), w.varint(18);
  for (int i = 0; i < 18; i++)
    w.b[w.n++] = 'a';
  vp_bytes(w.b + w.n, n, "window");
  w.n += n;
  w.tag(2, 2), w.varint(16);
  for (int i = 0; i < 16; i++)
    w.b[w.n++] = '\x01';
  two_cuts<M>(reinterpret_cast<const std::byte *>(w.b), w.n, cut, std::min<std::size_t>(cut + second, w.n));
}
} // namespace
//@ props=P06 cases=4 tcases=18 bound="every content of a 2-byte window between fixed fields, cut at 4 positions (thorough: 9), middle segment of 17 bytes (thorough: also 0)" cost=60 t=240
VP_HARNESS(h_seg_window_mix) {
  static const unsigned order[] = {20, 21, 22, 19, 23, 18, 24, 17, 16};
  auto c = vp_case(18);
  window<Mix<keep_traits>>(2, order[c % 9], c < 9 ? 17 : 0);
}
//@ props=P06 cases=4 tcases=9 bound="every content of a 3-byte window between fixed fields, cut at 4 positions (thorough: 9)" cost=60 t=240
VP_HARNESS(h_seg_window_inner) {
  static const unsigned order[] = {21, 22, 20, 23, 19, 24, 18, 17, 16};
  window<Inner<keep_traits>>(3, order[vp_case(9)], 17);
}
namespace {
// repeated fields of every encoding, arbitrary elements, one cut anywhere plus a 17-byte middle segment
template <typename T, typename Enc, fo Opt, unsigned W> void list(unsigned n, std::size_t cut) {
  builder b;
  b.w.tag(1, 2), b.w.varint(3), b.any(3); // unknown field so that the list does not start at 0
  if (Opt == PACKED)
    b.w.tag(3, 2), b.w.varint(n * W);
  for (unsigned i = 0; i < n; i++) {
    if (Opt != PACKED)
      b.w.tag(3, std::same_as<Enc, void> ? (W == 4 ? 5 : 1) : 0);
    if (std::same_as<Enc, void>)
      b.any(W);
    else
      b.wide(W >= 8 ? vp_u64("v") : vp_u16("v") & 1023, W);
  }
  two_cuts<Keep<std::vector<T>, Opt, Enc, 3>>(reinterpret_cast<const std::byte *>(b.w.b), b.w.n, std::min<std::size_t>(cut, b.w.n),
                                         std::min<std::size_t>(cut + 17, b.w.n));
}
} // namespace
//@ props=P06 cases=40 bound="the message shape and cut positions of the harness, every scalar arbitrary" cost=20 t=120
VP_HARNESS(h_seg_packed_f64) { list<std::int64_t, void, PACKED, 8>(4, vp_case(40)); }
//@ props=P06 cases=40 bound="the message shape and cut positions of the harness, every scalar arbitrary" cost=20 t=120
VP_HARNESS(h_seg_packed_f32) { list<std::uint32_t, void, PACKED, 4>(8, vp_case(40)); }
//@ props=P06 cases=40 bound="the message shape and cut positions of the harness, every scalar arbitrary" cost=20 t=120
VP_HARNESS(h_seg_unpacked_f64) { list<std::uint64_t, void, NONE, 8>(4, vp_case(40)); }
//@ props=P06 cases=40 bound="the message shape and cut positions of the harness, every scalar arbitrary" cost=20 t=120
VP_HARNESS(h_seg_packed_v10) { list<std::uint64_t, vuint64_t, PACKED, 10>(4, vp_case(40)); }
//@ props=P06 cases=40 bound="the message shape and cut positions of the harness, every scalar arbitrary" cost=20 t=120
VP_HARNESS(h_seg_packed_bool) { list<hpp_proto::boolean, bool, PACKED, 2>(18, vp_case(40)); }
//@ props=P06 cases=40 bound="the message shape and cut positions of the harness, every scalar arbitrary" cost=20 t=120
VP_HARNESS(h_seg_unpacked_v) { list<std::int32_t, vsint32_t, NONE, 3>(8, vp_case(40)); }
