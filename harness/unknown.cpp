// Unknown fields: skipped or preserved byte for byte, for every field number, wire type and payload.
#include "rich.hpp"
using namespace hpp_proto;
namespace {
using K = Keep<std::uint32_t, NONE, vuint32_t, 1>;
std::uint32_t unknown_number(const char *n = "number") {
  std::uint32_t num = vp_u32(n);
  vp_assume(num >= 2 && num < (1u << 29));
  return num;
}
// one arbitrary record of wire type wt (payload of any length for length-delimited records)
void put_record(bytevec &out, std::uint32_t num, unsigned kind, std::size_t maxlen) {
  spec_writer w;
  static constexpr unsigned wts[] = {0, 1, 2, 5, 3};
  w.tag(num, wts[kind]);
  bytevec payload;
  switch (kind) {
  case 0: w.varint(vp_u64("varint")); break;
  case 1: w.fixed(vp_u64("fixed64"), 8); break;
  case 3: w.fixed(vp_u32("fixed32"), 4); break;
  case 2:
    if (maxlen < 16) { // fixed length, arbitrary content
      payload.resize(maxlen);
      vp_bytes(payload.data(), maxlen, "payload");
    } else
      payload = any_bytes(maxlen);
    w.varint(payload.size());
    break;
  default: // group holding a varint field and an empty string field
    w.tag(3, 0);
    w.b[w.n++] = vp_u8("small") & 0x7f;
    w.tag(4, 2);
    w.varint(0);
    w.tag(num, 4);
  }
  auto *p = reinterpret_cast<std::byte *>(w.b);
  out.insert(out.end(), p, p + w.n);
  out.insert(out.end(), payload.begin(), payload.end());
}
void put_known(bytevec &out, std::uint32_t v) {
  spec_writer w;
  w.tag(1, 0);
  w.varint(v);
  auto *p = reinterpret_cast<std::byte *>(w.b);
  out.insert(out.end(), p, p + w.n);
}
bytevec known(std::uint32_t v) {
  bytevec r;
  if (v)
    put_known(r, v);
  return r;
}
bytevec operator+(bytevec a, const bytevec &b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
} // namespace
//@ props=P10,P14 cases=5 cost=20
// an unknown record after a known field: skipped, value unaffected, bytes re-emitted verbatim after the known fields
VP_HARNESS(h_unknown_after) {
  auto num = unknown_number();
  auto a = vp_u32("a") & 0x7f;
  bytevec rec, in;
  put_known(in, a);
  put_record(rec, num, vp_case(5), 1u << 24);
  in = in + rec;
  K m;
  vp_assert(read_binpb(m, in).ok(), "accepted");
  vp_assert(m.f == a, "known field intact");
  bytevec out;
  vp_assert(write_binpb(m, out).ok(), "written");
  vp_assert(same(out, known(a) + rec), "unknown record is re-emitted verbatim");
  vp_cover("end");
}
//@ props=P10,P14 cases=5 cost=20
// an unknown record before a known field
VP_HARNESS(h_unknown_before) {
  auto num = unknown_number();
  auto b = vp_u32("b") & 0x3fff;
  bytevec rec, in;
  put_record(rec, num, vp_case(5), 1u << 24);
  in = rec;
  put_known(in, b);
  K m;
  vp_assert(read_binpb(m, in).ok(), "accepted");
  vp_assert(m.f == b, "field after the unknown record is decoded");
  bytevec out;
  vp_assert(write_binpb(m, out).ok(), "written");
  vp_assert(same(out, known(b) + rec), "unknown record is re-emitted verbatim");
  One<std::uint32_t, NONE, vuint32_t> d;
  vp_assert(read_binpb(d, in).ok() && d.f == b, "without storage it is skipped");
  vp_cover("end");
}
//@ props=P10 cases=25 cost=20 bound="payloads of the length-delimited records fixed at 3 and 2 bytes"
// two unknown records around a known field: both preserved, in order
VP_HARNESS(h_unknown_two) {
  auto n1 = unknown_number("n1"), n2 = unknown_number("n2");
  vp_assume(n1 < 16 && n2 >= 16 && n2 < 2048);
  auto b = vp_u32("b") & 0x7f;
  bytevec r1, r2, in;
  unsigned c = vp_case(25);
  put_record(r1, n1, c % 5, 3);
  put_record(r2, n2, c / 5, 2);
  in = r1;
  put_known(in, b);
  in = in + r2;
  K m;
  vp_assert(read_binpb(m, in).ok(), "accepted");
  vp_assert(m.f == b, "known field between unknown records");
  bytevec out;
  vp_assert(write_binpb(m, out).ok(), "written");
  vp_assert(same(out, known(b) + r1 + r2), "both unknown records are re-emitted in order");
  vp_cover("end");
}
//@ props=P10 cases=5 bound="length-delimited payload of 3 bytes"
// consecutive unknown records with the same number
VP_HARNESS(h_unknown_same) {
  auto num = unknown_number();
  vp_assume(num < 2048);
  bytevec in;
  unsigned k = vp_case(5);
  put_record(in, num, k, 3);
  put_record(in, num, k, 3);
  put_known(in, 5);
  K m;
  vp_assert(read_binpb(m, in).ok() && m.f == 5, "accepted");
  bytevec out, want = known(5);
  in.resize(in.size() - 2);
  vp_assert(write_binpb(m, out).ok(), "written");
  vp_assert(same(out, want + in), "both records preserved");
  vp_cover("end");
}
//@ props=P10 cases=5
// unknown fields inside a nested message stay in the nested message
VP_HARNESS(h_unknown_nested) {
  auto num = unknown_number();
  vp_assume(num > 2);
  bytevec rec;
  put_record(rec, num, vp_case(5), 1u << 14);
  spec_writer w;
  w.tag(1, 2);
  w.varint(rec.size());
  auto *p = reinterpret_cast<std::byte *>(w.b);
  bytevec in = bytevec(p, p + w.n) + rec;
  Keep<std::optional<Inner<keep_traits>>, EXPL> m;
  vp_assert(read_binpb(m, in).ok(), "accepted");
  vp_assert(m.f.has_value() && m.f->x == 0, "nested message present");
  vp_assert(same(m.f->unknown_fields_.fields, rec), "stored in the nested message");
  vp_assert(m.unknown_fields_.fields.empty(), "outer message has no unknown fields");
  bytevec out;
  vp_assert(write_binpb(m, out).ok() && same(out, in), "round trip is the identity");
  vp_cover("end");
}
//@ props=P10,P05 cases=8 covers=end
// truncating an input that ends in an unknown record anywhere inside that record is an error
VP_HARNESS(h_unknown_truncated) {
  auto num = unknown_number();
  vp_assume(num >= 16 && num < 2048); // two-byte tag
  unsigned c = vp_case(8), kind = c % 4;
  bytevec rec;
  put_record(rec, num, kind, 1u << 20);
  std::size_t cut = vp_size("cut", 1u << 21);
  vp_assume(cut > 0 && cut < rec.size());
  bytevec in = known(7);
  in.insert(in.end(), rec.begin(), rec.begin() + static_cast<std::ptrdiff_t>(cut));
  if (c < 4) {
    K m;
    vp_assert(!read_binpb(m, in).ok(), "truncated unknown record is rejected (stored)");
  } else {
    One<std::uint32_t, NONE, vuint32_t> m;
    vp_assert(!read_binpb(m, in).ok(), "truncated unknown record is rejected (skipped)");
  }
  vp_cover("end");
}
//@ props=P14,P05 cases=10
// a record with field number zero is rejected whatever its wire type, at top level and inside an unknown group
VP_HARNESS(h_field_zero) {
  unsigned c = vp_case(10), kind = c % 5;
  bytevec in = known(vp_u32("a") & 0x7f), rec;
  put_record(rec, 0, kind, 1u << 20);
  spec_writer open, close;
  if (c >= 5) {
    open.tag(9, 3);
    close.tag(9, 4);
  }
  auto *o = reinterpret_cast<std::byte *>(open.b);
  auto *e = reinterpret_cast<std::byte *>(close.b);
  in.insert(in.end(), o, o + open.n);
  in = in + rec;
  in.insert(in.end(), e, e + close.n);
  K m;
  vp_assert(!read_binpb(m, in).ok(), "rejected (retaining unknown fields)");
  One<std::uint32_t, NONE, vuint32_t> d;
  vp_assert(!read_binpb(d, in).ok(), "rejected (discarding unknown fields)");
  vp_cover("end");
}
//@ props=P14,P05 covers=accepted,rejected
// keys: a varint of up to ten bytes selects the field only if it fits 32 bits and at most five bytes; never an alias
VP_HARNESS(h_wide_tag) {
  std::byte in[12];
  vp_bytes(in, 11, "in");
  unsigned n = 0;
  while (n < 10 && (static_cast<std::uint8_t>(in[n]) & 0x80))
    n++;
  vp_assume(n < 10);
  n++;
  std::uint64_t w = spec_varint_value(reinterpret_cast<const std::uint8_t *>(&in[0]), n);
  vp_assume((w & 7) == 0 && (static_cast<std::uint8_t>(in[n]) & 0x80) == 0);
  K m;
  auto st = read_binpb(m, std::span<const std::byte>(in, n + 1));
  if (n > 5 || w > 0xffffffffULL || (w >> 3) == 0) {
    vp_assert(!st.ok(), "a tag that is not a legal key is rejected");
    vp_cover("rejected");
    return;
  }
  vp_assert(st.ok(), "a legal key is accepted, minimal or not");
  if (w == 8)
    vp_assert(m.f == static_cast<std::uint32_t>(in[n]) && m.unknown_fields_.fields.empty(), "field one");
  else
    vp_assert(m.f == 0 && m.unknown_fields_.fields.size() == n + 1 && std::memcmp(m.unknown_fields_.fields.data(), in, n + 1) == 0,
              "any other number is unknown");
  vp_cover("accepted");
}
//@ props=P05 cases=5
// a length prefix above 32 bits, or longer than the rest of the input, is rejected for every length-delimited kind
VP_HARNESS(h_wide_length) {
  std::byte in[40];
  unsigned k = vp_case(5);
  in[0] = std::byte{0x0a};
  vp_bytes(in + 1, 39, "in");
  unsigned n = 1;
  while (n < 11 && (static_cast<std::uint8_t>(in[n]) & 0x80))
    n++;
  vp_assume(n < 11);
  std::uint64_t w = spec_varint_value(reinterpret_cast<const std::uint8_t *>(&in[1]), n);
  std::size_t total = n + 1 + 8;
  vp_assume(w > 8 || n > 5);
  std::span<const std::byte> s(in, total);
  bool ok = false;
  switch (k) {
  case 0: { One<std::string, NONE> m; ok = read_binpb(m, s).ok(); break; }
  case 1: { One<std::vector<std::uint32_t>, PACKED, vuint32_t> m; ok = read_binpb(m, s).ok(); break; }
  case 2: { One<std::optional<Inner<>>, EXPL> m; ok = read_binpb(m, s).ok(); break; }
  case 3: { One<std::vector<std::uint64_t>, PACKED> m; ok = read_binpb(m, s).ok(); break; }
  default: { One<std::uint32_t, NONE, void, 2> m; ok = read_binpb(m, s).ok(); break; }
  }
  vp_assert(!ok, "rejected");
  vp_cover("end");
}
