// Concatenation = merge, merge(), append, Any.
#include "rich.hpp"
#include <hpp_proto/merge.hpp>
using namespace hpp_proto;
namespace {
using M = Mix<keep_traits>;
struct AnyMsg {
  using hpp_proto_traits_type = hp::default_traits;
  std::string type_url;
  bytevec value;
};
bytevec operator+(bytevec a, const bytevec &b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
// an arbitrary message: `mask` selects which fields are populated (contents symbolic)
void fill(M &m, unsigned mask, const char *tag) {
  if (mask & 1)
    m.a = static_cast<std::int32_t>(vp_u32("a") & 0x7f);
  if (mask & 2) {
    m.s.resize(2);
    vp_bytes(m.s.data(), 2, "s");
  }
  if (mask & 4) {
    m.p.push_back(static_cast<std::int32_t>(vp_u32("p") & 0x1f));
    m.rs.emplace_back(3, static_cast<char>(vp_u8("rs")));
  }
  if (mask & 8) {
    m.m.emplace();
    m.m->x = vp_u32("mx") & 0x7f;
    m.g.emplace();
    m.g->s.assign(1, static_cast<char>(vp_u8("gs")));
  }
  if (mask & 16)
    m.o = static_cast<std::uint32_t>(vp_u32("o") & 0x7f);
  if (mask & 32) {
    m.o.template emplace<2>(2, static_cast<char>(vp_u8("os")));
  }
  if (mask & 64) {
    m.fx = vp_u32("fx");
    m.unknown_fields_.fields.push_back(std::byte{0xa0});
    m.unknown_fields_.fields.push_back(std::byte{0x06});
    m.unknown_fields_.fields.push_back(std::byte(vp_u8("unk") & 0x7f));
  }
}
void spec_merge(Inner<keep_traits> &d, const Inner<keep_traits> &s) {
  if (s.x)
    d.x = s.x;
  if (!s.s.empty())
    d.s = s.s;
}
// the merge the protobuf specification defines, field by field
void spec_merge(M &d, const M &s) {
  if (s.a.has_value())
    d.a = s.a;
  if (!s.s.empty())
    d.s = s.s;
  for (auto x : s.p)
    d.p.push_back(x);
  for (auto &x : s.rs)
    d.rs.push_back(x);
  if (s.m) {
    if (!d.m)
      d.m.emplace();
    spec_merge(*d.m, *s.m);
  }
  if (s.g) {
    if (!d.g)
      d.g.emplace();
    spec_merge(*d.g, *s.g);
  }
  if (s.o.index() != 0)
    d.o = s.o;
  if (s.fx)
    d.fx = s.fx;
  for (auto b : s.unknown_fields_.fields)
    d.unknown_fields_.fields.push_back(b);
}
constexpr unsigned masks[] = {0, 127, 1 | 16, 2 | 8, 4 | 32, 64 | 8, 1 | 2 | 4 | 16, 8 | 32, 95};
} // namespace
//@ props=P15,P18 cases=81 cost=3 bound="lists of at most one element per operand, strings of 1-3 bytes, single-byte varints"
// decode(encode(a) + encode(b)) == merge(a, b) == the specified field-wise merge; sources are not modified
VP_HARNESS(h_merge_concat) {
  unsigned c = vp_case(81);
  M a, b;
  fill(a, masks[c % 9], "a");
  fill(b, masks[c / 9], "b");
  M want = a;
  spec_merge(want, b);
  bytevec ea, eb;
  vp_assert(write_binpb(a, ea).ok() && write_binpb(b, eb).ok(), "encoded");
  M cat;
  vp_assert(read_binpb(cat, ea + eb).ok(), "concatenation is accepted");
  vp_assert(cat == want, "concatenation decodes to the merge");
  M d = a;
  const M b0 = b;
  merge(d, b);
  vp_assert(d == want, "merge(copy)");
  vp_assert(b == b0, "the source is not modified");
  merge(a, std::move(b));
  vp_assert(a == want, "merge(move)");
  vp_cover("end");
}
//@ props=P16 cases=3
// append: the existing content (any length) is kept, and exactly the encoding is added
VP_HARNESS(h_append) {
  bytevec buf = any_bytes(1u << 20, "prefix");
  const bytevec before = buf;
  M m;
  unsigned c = vp_case(3);
  fill(m, c == 0 ? 0 : c == 1 ? 127 : 2 | 8, "m");
  bytevec enc;
  vp_assert(write_binpb(m, enc).ok(), "encoded");
  vp_assert(append_binpb(m, buf).ok(), "appended");
  vp_assert(same(buf, before + enc), "prefix + encoding");
  vp_cover("end");
}
//@ props=P16
// append to a std::string, message with a string of any length
VP_HARNESS(h_append_string) {
  std::string buf = any_string(1u << 20, "prefix");
  const std::string before = buf;
  One<std::string, NONE, void, 2> m;
  m.f = any_string(1u << 20);
  std::string enc;
  vp_assert(write_binpb(m, enc).ok(), "encoded");
  vp_assert(append_binpb(m, buf).ok(), "appended");
  vp_assert(buf == before + enc, "prefix + encoding");
  vp_cover("end");
}
//@ props=P16
// write (not append) replaces whatever the buffer held
VP_HARNESS(h_overwrite) {
  bytevec buf = any_bytes(1u << 20, "prefix");
  One<std::string, NONE, void, 2> m;
  m.f = any_string(1u << 20);
  bytevec enc;
  vp_assert(write_binpb(m, enc).ok(), "encoded");
  vp_assert(write_binpb(m, buf).ok(), "encoded again");
  vp_assert(same(buf, enc), "buffer holds exactly the encoding");
  vp_cover("end");
}
//@ props=P16,P15
// reading into a used message object discards its previous content
VP_HARNESS(h_read_resets) {
  M m, ref;
  fill(m, 127, "old");
  bytevec in;
  {
    M x;
    fill(x, vp_bool("which") ? 3 : 72, "new");
    vp_assert(write_binpb(x, in).ok(), "encoded");
  }
  vp_assert(read_binpb(m, in).ok() && read_binpb(ref, in).ok(), "accepted");
  vp_assert(m == ref, "no trace of the old content");
  vp_cover("end");
}
//@ props=P17
// pack_any / unpack_any round trip, payload of any length
VP_HARNESS(h_any_roundtrip) {
  One<std::string, NONE> m, o;
  m.f = any_string(1u << 20);
  AnyMsg any;
  vp_assert(pack_any(any, m).ok(), "packed");
  vp_assert(any.type_url == "type.googleapis.com/vp.One", "type url");
  bytevec enc;
  vp_assert(write_binpb(m, enc).ok() && same(any.value, enc), "value is the encoding");
  vp_assert(unpack_any(any, o).ok(), "unpacked");
  vp_assert(o == m, "same message");
  Inner<> i;
  i.x = 9;
  vp_assert(!unpack_any(any, i).ok(), "another type is refused");
  vp_cover("end");
}
//@ props=P17 cases=10 bound="type URLs of 0..9 arbitrary characters"
// unpack succeeds exactly when the part after the last '/' is the full message name
VP_HARNESS(h_any_url) {
  std::size_t n = vp_case(10);
  AnyMsg any;
  any.type_url.resize(n);
  vp_bytes(any.type_url.data(), n, "url");
  const char *u = any.type_url.data();
  bool want = n >= 7 && u[n - 7] == '/' && std::memcmp(u + n - 6, "vp.One", 6) == 0;
  One<std::string, NONE> o;
  vp_assert(unpack_any(any, o).ok() == want, "accepted iff the URL names the type");
  auto e = unpack_any<One<std::string, NONE>>(any);
  vp_assert(e.has_value() == want, "same for the returning form");
  vp_cover("end");
}
