// Length-delimited scalars (string, bytes) of every length: wire format and round trip, no length bound.
#include "schema.hpp"
using namespace hpp_proto;
namespace {
template <typename T> T arbitrary(std::size_t n) {
  auto *p = reinterpret_cast<typename T::value_type *>(vp_buffer(n, "payload"));
  T r(p, p + n);
  return r;
}
template <typename T, bool Explicit> void check_len() {
  std::size_t n = vp_size("n", 0x7ffffff0);
  auto s = arbitrary<T>(n);
  using M = std::conditional_t<Explicit, One<hpp_proto::optional<T>, EXPL>, One<T, NONE>>;
  M m;
  m.f = s;
  bytevec buf;
  vp_assert(write_binpb(m, buf).ok(), "write succeeds");
  if (!Explicit && n == 0) {
    vp_assert(buf.empty(), "implicit-presence empty value is omitted");
  } else {
    unsigned k = spec_varint_len(n);
    vp_assert(buf.size() == 1 + k + n, "size is tag + length + payload");
    vp_assert(buf[0] == std::byte{0x0a}, "tag byte");
    for (unsigned i = 0; i < k; i++)
      vp_assert(static_cast<std::uint8_t>(buf[1 + i]) == spec_varint_byte(n, i, k), "length prefix");
    if (n != 0) {
      std::size_t i = vp_index(n);
      vp_assert(static_cast<char>(buf[1 + k + i]) == static_cast<char>(s[i]), "payload is copied verbatim");
    }
  }
  M o;
  vp_assert(read_binpb(o, buf).ok(), "read back succeeds");
  const T *r;
  if constexpr (Explicit) {
    vp_assert(o.f.has_value(), "presence preserved");
    r = &*o.f;
  } else
    r = &o.f;
  vp_assert(r->size() == n, "length preserved");
  if (n != 0) {
    std::size_t i = vp_index(n);
    vp_assert((*r)[i] == s[i], "content preserved");
  }
  vp_cover("end");
}
} // namespace
//@ props=P04
// string, implicit presence, every length
VP_HARNESS(h_string) { check_len<std::string, false>(); }
//@ props=P04
VP_HARNESS(h_string_opt) { check_len<std::string, true>(); }
//@ props=P04
VP_HARNESS(h_bytes) { check_len<std::vector<std::byte>, false>(); }
//@ props=P04
VP_HARNESS(h_bytes_opt) { check_len<std::vector<std::byte>, true>(); }
