//@file flags="-I$REPO/src/protoc-plugin" ctors=1
// The generator's lexical layer: identifiers, qualified names, include paths, comments, numeric literals.
#include "vp.hpp"
#include "cpp_lexical_emitter.cpp"
namespace pc = hpp_proto::protoc::cpp;
namespace {
using sv = std::string_view;
constexpr sv keywords[] = {
    "alignas", "alignof", "and", "and_eq", "asm", "auto", "bitand", "bitor", "bool", "break", "case", "catch", "char", "char8_t",
    "char16_t", "char32_t", "class", "compl", "concept", "const", "consteval", "constexpr", "constinit", "const_cast", "continue",
    "co_await", "co_return", "co_yield", "decltype", "default", "delete", "do", "double", "dynamic_cast", "else", "enum", "explicit",
    "export", "extern", "false", "float", "for", "friend", "goto", "if", "inline", "int", "long", "mutable", "namespace", "new",
    "noexcept", "not", "not_eq", "nullptr", "operator", "or", "or_eq", "private", "protected", "public", "register",
    "reinterpret_cast", "requires", "return", "short", "signed", "sizeof", "static", "static_assert", "static_cast", "struct",
    "switch", "template", "this", "thread_local", "throw", "true", "try", "typedef", "typeid", "typename", "union", "unsigned",
    "using", "virtual", "void", "volatile", "wchar_t", "while", "xor", "xor_eq"};
constexpr unsigned n_keywords = sizeof(keywords) / sizeof(keywords[0]);
// 0 not allowed in an identifier, 1 only behind the first character, 2 anywhere
constexpr std::array<unsigned char, 256> ident = [] {
  std::array<unsigned char, 256> t{};
  for (unsigned c = '0'; c <= '9'; ++c) t[c] = 1;
  for (unsigned c = 'a'; c <= 'z'; ++c) t[c] = t[c - 32] = 2;
  t['_'] = 2;
  return t;
}();
} // namespace
//@ props=P26 cases=92 cost=5
// a name that is a C++ keyword is emitted with a trailing underscore
VP_HARNESS(h_emit_keyword) {
  static_assert(n_keywords == 92);
  const sv k = keywords[vp_case(92)];
  std::string want{k};
  want += '_';
  auto a = pc::identifier::from_proto(k);
  auto b = pc::identifier::from_protobuf_namespace(k);
  vp_assert(a.has_value() && a->view() == want, "a keyword receives a trailing underscore");
  vp_assert(b.has_value() && b->view() == want, "a keyword receives a trailing underscore in a namespace");
  vp_cover("end");
}
//@ props=P26 cases=5 bound="names of up to four characters, all contents" covers=accepted,rejected cost=20
// every accepted name is a valid identifier; the spelling is the name unless it is a keyword
VP_HARNESS(h_emit_identifier) {
  const auto n = vp_case(5);
  char in[5];
  vp_bytes(&in[0], n, "name");
  const sv name{&in[0], n};
  auto r = pc::identifier::from_proto(name);
  bool ok = n != 0;
  for (std::size_t i = 0; i < n; ++i)
    ok &= ident[static_cast<unsigned char>(in[i])] > (i == 0 ? 1 : 0);
  if (!r.has_value()) {
    vp_cover("rejected");
    return;
  }
  vp_assert(ok, "an accepted name is an identifier");
  const sv s = r->view();
  vp_assert(s.substr(0, n) == name, "the spelling starts with the name");
  bool kw = false;
  for (unsigned i = 0; i < n_keywords; ++i)
    if (keywords[i].size() == n)
      kw |= keywords[i] == name;
  if (s.size() == n)
    vp_assert(!kw, "a keyword is never emitted");
  else
    vp_assert(s.size() == n + 1 && s[n] == '_', "only an underscore is appended");
  vp_cover("accepted");
}
//@ props=P26 cases=3 bound="comments of up to two bytes, all contents" cost=60
// a comment stays on its line: no line break, nothing that splices or ends it, and every ordinary character is kept
VP_HARNESS(h_emit_comment) {
  const auto n = vp_case(3);
  char in[3];
  vp_bytes(&in[0], n, "text");
  pc::comment_text c{sv{&in[0], n}};
  const sv s = c.view();
  bool ok = true;
  for (std::size_t i = 0; i < s.size(); ++i)
    ok &= static_cast<unsigned char>(s[i]) >= 0x20 && static_cast<unsigned char>(s[i]) < 0x7f && s[i] != '?';
  vp_assert(ok, "only printable characters, no line break, no trigraph");
  vp_assert(s.empty() || s.back() != '\\', "the comment does not splice the next line");
  vp_cover("end");
}
//@ props=P26 cases=6 bound="file names of up to five bytes before the extension" covers=accepted,rejected cost=20
// an include path never ends its quotes or its line
VP_HARNESS(h_emit_include) {
  const auto n = vp_case(6);
  char in[12];
  vp_bytes(&in[0], n, "path");
  std::memcpy(&in[n], ".proto", 6);
  bool unsafe = false;
  for (std::size_t i = 0; i < n; ++i)
    unsafe |= in[i] == '"' || static_cast<unsigned char>(in[i]) < 0x20;
  auto r = pc::include_path::from_proto_file(sv{&in[0], n + 6}, "", ".msg.hpp");
  vp_assert(r.has_value() == !unsafe, "a path is refused exactly when it holds a quote or a control character");
  if (!r.has_value()) {
    vp_cover("rejected");
    return;
  }
  const sv s = r->view();
  vp_assert(s.size() == n + 8 + 2 && s.front() == '"' && s.back() == '"' && s.substr(n + 1, 8) == ".msg.hpp", "quoted, with the suffix");
  bool same = true;
  for (std::size_t i = 0; i < n; ++i)
    same &= s[i + 1] == (in[i] == '\\' ? '/' : in[i]);
  vp_assert(same, "the path is kept");
  vp_cover("accepted");
}
namespace {
// the value a C++ integer literal (optional sign) denotes; digits is the index behind the last digit
template <typename F> void int_default(F emit, bool is_signed, unsigned bits, unsigned c) {
  // decimal numbers around the limits, as protoc prints them
  static constexpr sv text[] = {"0", "1", "-1", "7", "42", "-42", "2147483647", "-2147483647", "-2147483648", "2147483648", "4294967295",
                                "4294967296", "9223372036854775807", "-9223372036854775807", "-9223372036854775808",
                                "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775809",
                                "", "-", "x", "1x", "+"};
  const sv t = text[c];
  // specification: parse with 128 bits
  bool valid = !t.empty(), neg = false;
  unsigned __int128 mag = 0;
  std::size_t i = 0;
  if (valid && (t[0] == '-' || t[0] == '+'))
    neg = t[0] == '-', valid = is_signed, i = 1;
  valid &= i < t.size();
  for (; i < t.size(); ++i)
    valid &= t[i] >= '0' && t[i] <= '9', mag = mag * 10 + static_cast<unsigned>(t[i] - '0');
  const unsigned __int128 top = static_cast<unsigned __int128>(1) << bits;
  valid &= is_signed ? (neg ? mag <= top / 2 : mag < top / 2) : mag < top;
  auto r = emit(t, bits == 64 ? pc::integer_width::bits64 : pc::integer_width::bits32);
  vp_assert(r.has_value() == valid, "accepted exactly when the value fits");
  if (valid) {
    const std::string suffix = is_signed ? (bits == 64 ? "LL" : "") : (bits == 64 ? "ULL" : "U");
    if (neg && mag == top / 2) // -2^n is not a literal: it is written as a difference
      vp_assert(r->view() == (bits == 64 ? "-9223372036854775807LL-1" : "-2147483647-1"), "the minimum is written as an expression");
    else
      vp_assert(r->view() == std::string{t} + suffix, "the value and the suffix of its type");
  }
  vp_cover("end");
}
} // namespace
//@ props=P26 cases=24 bound="the listed texts"
VP_HARNESS(h_emit_int32) { int_default(pc::numeric_literal::signed_integer, true, 32, vp_case(24)); }
//@ props=P26 cases=24 bound="the listed texts"
VP_HARNESS(h_emit_int64) { int_default(pc::numeric_literal::signed_integer, true, 64, vp_case(24)); }
//@ props=P26 cases=24 bound="the listed texts"
VP_HARNESS(h_emit_uint32) { int_default(pc::numeric_literal::unsigned_integer, false, 32, vp_case(24)); }
//@ props=P26 cases=24 bound="the listed texts"
VP_HARNESS(h_emit_uint64) { int_default(pc::numeric_literal::unsigned_integer, false, 64, vp_case(24)); }
//@ props=P26 cases=5 bound="numbers of up to five decimal digits, all contents" cost=20
// every decimal number is emitted as itself
VP_HARNESS(h_emit_digits) {
  const auto n = 1 + vp_case(5);
  char in[6];
  vp_bytes(&in[0], n, "digits");
  for (std::size_t i = 0; i < n; ++i)
    vp_assume(in[i] >= '0' && in[i] <= '9');
  vp_assume(n == 1 || in[0] != '0');
  const sv t{&in[0], n};
  auto r = pc::numeric_literal::signed_integer(t, pc::integer_width::bits32);
  auto u = pc::numeric_literal::unsigned_integer(t, pc::integer_width::bits64);
  vp_assert(r.has_value() && r->view() == t, "a signed default is emitted as it is written");
  vp_assert(u.has_value() && u->view().size() == n + 3 && u->view().substr(0, n) == t && u->view().substr(n) == "ULL", "an unsigned one with its suffix");
  vp_cover("end");
}
//@ props=P26
VP_HARNESS(h_emit_bool_float) {
  auto b = [](sv t) { auto r = pc::numeric_literal::boolean(t); return r.has_value() ? std::string{r->view()} : std::string{"!"}; };
  vp_assert(b("true") == "true" && b("false") == "false" && b("1") == "!" && b("") == "!", "boolean defaults");
  auto f = [](sv t, bool is_float) { auto r = pc::numeric_literal::floating(t, is_float); return r.has_value() ? std::string{r->view()} : std::string{"!"}; };
  vp_assert(f("nan", true) == "std::numeric_limits<float>::quiet_NaN()" && f("inf", false) == "std::numeric_limits<double>::infinity()" &&
            f("-inf", true) == "-std::numeric_limits<float>::infinity()", "the values that are not numbers");
  vp_cover("end");
}
//@ props=P26 cases=3 bound="packages of up to three components of two characters, all contents" covers=accepted,rejected cost=20
// a dotted name becomes the chain of its components, each a valid identifier
VP_HARNESS(h_emit_qualified) {
  const auto parts = 1 + vp_case(3);
  char in[9];
  std::string want;
  bool valid = true;
  vp_bytes(&in[0], 2, "first");
  for (unsigned k = 0; k < parts; ++k) {
    if (k != 0)
      std::memcpy(&in[3 * k], k == 1 ? "do" : "ab", 2);
    in[3 * k + 2] = '.';
  }
  for (std::size_t i = 0; i < 2; ++i)
    valid &= ident[static_cast<unsigned char>(in[i])] > (i == 0 ? 1 : 0);
  const sv name{&in[0], 3 * parts - 1};
  auto r = pc::qualified_name::from_dotted(name);
  if (!r.has_value()) {
    vp_cover("rejected");
    return;
  }
  vp_assert(valid, "an accepted name consists of identifiers");
  const sv s = r->view();
  bool kw = false;
  for (auto k : keywords)
    if (k.size() == 2)
      kw |= k == name.substr(0, 2);
  want.assign(&in[0], 2);
  if (vp_split_u64(kw) != 0)
    want += '_';
  want += parts > 1 ? "::do_" : "";
  want += parts > 2 ? "::ab" : "";
  vp_assert(s == want, "the components are joined, keywords receive an underscore");
  vp_cover("accepted");
}
