// Closed and open enums, oneof exclusivity.
#include "rich.hpp"
using namespace hpp_proto;
namespace {
constexpr auto CL = EXPL | fo::closed_enum;
template <std::uint32_t N> bytevec enum_rec(std::int32_t v) {
  spec_writer w;
  w.tag(N, 0);
  w.varint(static_cast<std::uint64_t>(static_cast<std::int64_t>(v)));
  auto *p = reinterpret_cast<std::byte *>(w.b);
  return bytevec(p, p + w.n);
}
bytevec operator+(bytevec a, const bytevec &b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
bool known(std::int32_t v) { return is_valid(static_cast<CE>(v)); }
} // namespace
//@ props=P11
// singular closed enum after an optional earlier valid value: an unknown number leaves the field untouched and is kept
VP_HARNESS(h_closed_singular) {
  std::int32_t v = static_cast<std::int32_t>(vp_u32("v"));
  bool before = vp_bool("before");
  bytevec in;
  if (before)
    in = enum_rec<1>(300);
  in = in + enum_rec<1>(v);
  Keep<hpp_proto::optional<CE>, CL> m;
  vp_assert(read_binpb(m, in).ok(), "accepted");
  bytevec out;
  vp_assert(write_binpb(m, out).ok(), "written");
  if (known(v)) {
    vp_assert(m.f.has_value() && static_cast<std::int32_t>(*m.f) == v, "known value is stored");
    vp_assert(same(out, enum_rec<1>(v)), "re-encoded");
  } else {
    vp_assert(m.f.has_value() == before && (!before || *m.f == CE::C), "field is left as it was");
    vp_assert(same(m.unknown_fields_.fields, enum_rec<1>(v)), "unknown value goes to the unknown fields");
    vp_assert(same(out, in), "nothing is lost on re-encoding");
  }
  One<hpp_proto::optional<CE>, CL> d;
  vp_assert(read_binpb(d, in).ok(), "accepted without storage");
  vp_assert(known(v) ? d.f.has_value() && static_cast<std::int32_t>(*d.f) == v : d.f.has_value() == before, "dropped without storage");
  vp_cover("end");
}
//@ props=P11 bound="three list elements" cost=10
// repeated closed enum, one record per element
VP_HARNESS(h_closed_repeated) {
  std::int32_t v[3];
  bytevec in, unk, good;
  std::vector<CE> want;
  for (auto &x : v) {
    x = static_cast<std::int32_t>(vp_u32("v"));
    vp_assume(x >= -2 && x < 0x4000);
    auto r = enum_rec<1>(x);
    in = in + r;
    if (known(x)) {
      want.push_back(static_cast<CE>(x));
      good = good + r;
    } else
      unk = unk + r;
  }
  Keep<std::vector<CE>, NONE | fo::closed_enum> m;
  vp_assert(read_binpb(m, in).ok(), "accepted");
  vp_assert(m.f == want, "known elements, in order");
  vp_assert(same(m.unknown_fields_.fields, unk), "unknown elements kept, in order");
  bytevec out;
  vp_assert(write_binpb(m, out).ok() && same(out, good + unk), "re-encoding keeps both");
  vp_cover("end");
}
//@ props=P11 bound="three list elements" cost=10
// packed closed enum
VP_HARNESS(h_closed_packed) {
  std::int32_t v[3];
  bytevec unk;
  spec_writer body;
  std::vector<CE> want;
  want.push_back(CE::B);
  for (auto &x : v) {
    x = static_cast<std::int32_t>(vp_u32("v"));
    vp_assume(x >= -2 && x < 0x4000);
    body.varint(static_cast<std::uint64_t>(static_cast<std::int64_t>(x)));
    if (known(x))
      want.push_back(static_cast<CE>(x));
    else
      unk = unk + enum_rec<1>(x);
  }
  spec_writer w;
  w.tag(1, 0);
  w.varint(2); // one unpacked element first
  w.tag(1, 2);
  w.varint(body.n);
  w.raw(body.b, body.n);
  auto *p = reinterpret_cast<std::byte *>(w.b);
  Keep<std::vector<CE>, PACKED | fo::closed_enum> m;
  vp_assert(read_binpb(m, std::span<const std::byte>(p, w.n)).ok(), "accepted");
  vp_assert(m.f == want, "known elements, in order");
  vp_assert(same(m.unknown_fields_.fields, unk), "unknown elements kept");
  vp_cover("end");
}
//@ props=P11,P12
// closed enum member of a oneof: an unknown number does not disturb the active member
VP_HARNESS(h_closed_oneof) {
  std::int32_t v = static_cast<std::int32_t>(vp_u32("v"));
  spec_writer w;
  w.tag(1, 0);
  w.varint(77);
  auto *p = reinterpret_cast<std::byte *>(w.b);
  bytevec in = bytevec(p, p + w.n) + enum_rec<4>(v);
  Choice<> m;
  vp_assert(read_binpb(m, in).ok(), "accepted");
  if (known(v))
    vp_assert(m.o.index() == 4 && static_cast<std::int32_t>(std::get<4>(m.o)) == v && m.unknown_fields_.fields.empty(), "switches to the enum");
  else {
    vp_assert(m.o.index() == 1 && std::get<1>(m.o) == 77, "active member untouched");
    vp_assert(same(m.unknown_fields_.fields, enum_rec<4>(v)), "unknown value kept");
  }
  vp_cover("end");
}
//@ props=P11,P03
// open enum: every 32-bit number is preserved
VP_HARNESS(h_open_enum) {
  std::int32_t v = static_cast<std::int32_t>(vp_u32("v"));
  One<hpp_proto::optional<E>, EXPL> m;
  vp_assert(read_binpb(m, enum_rec<1>(v)).ok(), "accepted");
  vp_assert(m.f.has_value() && static_cast<std::int32_t>(*m.f) == v, "number preserved");
  bytevec out;
  vp_assert(write_binpb(m, out).ok() && same(out, enum_rec<1>(v)), "re-encoded");
  vp_cover("end");
}
//@ props=P05,P11 cases=6 tcases=7 bound="every input of 0..5 bytes" covers=accepted,rejected cost=20
// closed enum fields and arbitrary input bytes: malformed input is never accepted silently
VP_HARNESS(h_any_closed) {
  std::size_t n = vp_case(7);
  auto *p = vp_buffer(n, "input");
  Keep<hpp_proto::optional<CE>, CL> m;
  auto st = read_binpb(m, std::span<const std::byte>(p, n));
  // the same bytes seen as an open enum field: same acceptance
  Keep<hpp_proto::optional<CE>, EXPL> q;
  vp_assert(st.ok() == read_binpb(q, std::span<const std::byte>(p, n)).ok(), "closedness does not change what is well-formed");
  if (st.ok())
    vp_cover("accepted");
  else
    vp_cover("rejected");
}
namespace {
// one arbitrary record for oneof member i (1..5), with the expected member state
struct member {
  unsigned idx;
  std::uint32_t u;
  std::string s;
};
bytevec put(member &m, unsigned i, std::size_t maxlen = 1u << 20) {
  m.idx = i;
  spec_writer w;
  bytevec tail;
  switch (i) {
  case 1: m.u = vp_u32("u"); w.tag(1, 0); w.varint(m.u); break;
  case 2:
    if (maxlen < 16) {
      m.s.resize(maxlen);
      vp_bytes(m.s.data(), maxlen, "str");
    } else
      m.s = any_string(maxlen);
    w.tag(2, 2);
    w.varint(m.s.size());
    tail.assign(reinterpret_cast<std::byte *>(m.s.data()), reinterpret_cast<std::byte *>(m.s.data()) + m.s.size());
    break;
  case 3: { // Inner { x }
    m.u = vp_u32("x");
    spec_writer b;
    b.tag(1, 0);
    b.varint(m.u);
    w.tag(3, 2);
    w.varint(b.n);
    w.raw(b.b, b.n);
    break;
  }
  case 4: m.u = 2; w.tag(4, 0); w.varint(2); break;
  default: m.u = vp_u32("z"); w.tag(20, 0); w.varint(spec_zigzag32(static_cast<std::int32_t>(m.u)));
  }
  auto *p = reinterpret_cast<std::byte *>(w.b);
  return bytevec(p, p + w.n) + tail;
}
bool holds(const Choice<> &c, const member &m) {
  if (c.o.index() != m.idx)
    return false;
  switch (m.idx) {
  case 1: return std::get<1>(c.o) == m.u;
  case 2: return std::get<2>(c.o) == m.s;
  case 3: return std::get<3>(c.o).x == m.u && std::get<3>(c.o).s.empty();
  case 4: return std::get<4>(c.o) == CE::B;
  default: return std::get<5>(c.o) == static_cast<std::int32_t>(m.u);
  }
}
} // namespace
//@ props=P12,P03 cases=5
// every member: exactly that member is decoded and exactly its record is written (default values included)
VP_HARNESS(h_oneof_single) {
  member a;
  auto in = put(a, 1 + vp_case(5));
  Choice<> m;
  vp_assert(read_binpb(m, in).ok(), "accepted");
  vp_assert(holds(m, a), "the member named by the tag is active");
  bytevec out;
  vp_assert(write_binpb(m, out).ok(), "written");
  if (a.idx == 3 && a.u == 0)
    vp_assert(out.size() == 2 && out[0] == std::byte{0x1a} && out[1] == std::byte{0}, "present empty message");
  else
    vp_assert(same(out, in), "exactly one record is written");
  vp_cover("end");
}
//@ props=P12,P15 cases=25 cost=10
// two records of one oneof: the last one wins
VP_HARNESS(h_oneof_two) {
  unsigned c = vp_case(25);
  member a, b;
  auto in = put(a, 1 + c % 5, c == 6 ? 3 : 1u << 20);
  in = in + put(b, 1 + c / 5);
  Choice<> m;
  vp_assert(read_binpb(m, in).ok(), "accepted");
  vp_assert(holds(m, b), "the last member wins");
  vp_cover("end");
}
//@ props=P12,P15
// two records of the same message member are merged; another member in between discards
VP_HARNESS(h_oneof_merge) {
  std::uint32_t x = vp_u32("x");
  bool between = vp_bool("between");
  spec_writer w, b;
  b.tag(1, 0);
  b.varint(x);
  w.tag(3, 2);
  w.varint(b.n);
  w.raw(b.b, b.n);
  if (between) {
    w.tag(1, 0);
    w.varint(5);
  }
  w.tag(3, 2);
  w.varint(3);
  w.tag(2, 2);
  w.varint(1);
  w.b[w.n++] = 'q';
  Choice<> m;
  vp_assert(read_binpb(m, std::span<const std::byte>(reinterpret_cast<std::byte *>(w.b), w.n)).ok(), "accepted");
  vp_assert(m.o.index() == 3, "message member");
  auto &i = std::get<3>(m.o);
  vp_assert(i.s == "q", "second record applied");
  vp_assert(i.x == (between ? 0 : x), "merged only when the member was already active");
  vp_cover("end");
}
//@ props=P12
// no member set: nothing is written
VP_HARNESS(h_oneof_none) {
  Choice<> m;
  bytevec out;
  vp_assert(write_binpb(m, out).ok() && out.empty(), "empty");
  Choice<> o;
  vp_assert(read_binpb(o, out).ok() && o.o.index() == 0, "no member");
  vp_cover("end");
}
