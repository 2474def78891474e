//@file flags="-I$REPO/src/protoc-plugin"
// The generator's lexical layer: whatever bytes or names a .proto file holds, the emitted C++ spelling denotes them.
#include "vp.hpp"
#include "cpp_lexical_emitter.cpp"
namespace pc = hpp_proto::protoc::cpp;
namespace {
// properties of a character: octal digit value (8 = none), value of a simple escape (0 = none; none denotes NUL)
constexpr std::array<unsigned char, 256> octal = [] {
  std::array<unsigned char, 256> t{};
  for (auto &x : t) x = 8;
  for (unsigned c = '0'; c <= '7'; ++c) t[c] = static_cast<unsigned char>(c - '0');
  return t;
}();
constexpr std::array<unsigned char, 256> simple = [] {
  std::array<unsigned char, 256> t{};
  t['a'] = 7, t['b'] = 8, t['t'] = 9, t['n'] = 10, t['v'] = 11, t['f'] = 12, t['r'] = 13;
  t['"'] = '"', t['\''] = '\'', t['\\'] = '\\', t['?'] = '?';
  return t;
}();
constexpr std::array<unsigned char, 256> plain = [] { // may stand for itself
  std::array<unsigned char, 256> t{};
  for (unsigned c = ' '; c < 0x7f; ++c) t[c] = c != '"' && c != '\\';
  return t;
}();
// a C++ lexer reads the spelling at position p as the byte `want`; returns the position behind it
std::size_t lex(std::string_view s, std::size_t p, unsigned char want) {
  auto at = [&](std::size_t i) { return i < s.size() ? static_cast<unsigned char>(s[i]) : static_cast<unsigned char>(0); };
  const unsigned char c = at(p);
  if (c != '\\') {
    vp_assert((c == want) & (plain[c] != 0), "a plain character stands for itself");
    vp_assert((c != '?') | (at(p + 1) != '?'), "no trigraph arises");
    return p + 1;
  }
  const unsigned char d = octal[at(p + 1)];
  if (d < 8) {
    const unsigned char d2 = octal[at(p + 2)], d3 = octal[at(p + 3)];
    if (d2 < 8 && d3 < 8) {
      vp_assert(static_cast<unsigned>(d) * 64 + d2 * 8U + d3 == want, "an octal escape denotes the byte");
      return p + 4;
    }
    vp_assert((d2 < 8 ? d * 8U + d2 : d) == want, "an octal escape denotes the byte");
    return p + (d2 < 8 ? 3 : 2);
  }
  vp_assert((simple[at(p + 1)] != 0) & (simple[at(p + 1)] == want), "a simple escape denotes the byte");
  return p + 2;
}
} // namespace
//@ props=P26 cases=4 bound="byte strings of up to 3 bytes, all contents"
// the literal denotes exactly the bytes
VP_HARNESS(h_emit_literal) {
  const auto n = vp_case(4);
  char in[4];
  vp_bytes(&in[0], n, "bytes");
  pc::string_literal_bytes lit{std::string_view{&in[0], n}};
  const std::string_view s = lit.view();
  vp_assert(s.size() >= 2 && s.front() == '"', "the spelling opens a literal");
  std::size_t p = 1;
  for (std::size_t k = 0; k < n; ++k)
    p = lex(s, p, static_cast<unsigned char>(in[k]));
  vp_assert(p + 1 == s.size() && s[p] == '"', "the literal ends behind the last byte");
  vp_cover("end");
}
