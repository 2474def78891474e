// Durations: text <-> (seconds, nanos), decimal seconds with a fraction of 0, 3, 6 or 9 digits and the suffix s.
//@file flags="-I$VERIF/harness/stub"
#include "vp.hpp"
#include <array>
#include <string>
#include <string_view>
#include <hpp_proto/json/duration_codec.hpp>
namespace hp = hpp_proto;
namespace {
struct dur {
  std::int64_t seconds = 0;
  std::int32_t nanos = 0;
};
struct no_ctx {};
constexpr std::int64_t limit = 315'576'000'000;
bool digit(char c) { return c >= '0' && c <= '9'; }
} // namespace

//@ props=P20
// values outside the protobuf range or of mixed sign are refused, for all 64-bit seconds and 32-bit nanos
VP_HARNESS(h_duration_encode_refuses) {
  dur v{static_cast<std::int64_t>(vp_u64("seconds")), static_cast<std::int32_t>(vp_u32("nanos"))};
  vp_assume(v.seconds < -limit || v.seconds > limit || v.nanos < -999'999'999 || v.nanos > 999'999'999 ||
            (v.seconds < 0 && v.nanos > 0) || (v.seconds > 0 && v.nanos < 0));
  std::array<char, 32> buf{};
  vp_assert(hp::duration_codec::encode(v, buf) == -1, "values out of range are refused");
  vp_cover("end");
}
//@ props=P20 cases=48 cost=20
// canonical text of every duration in range (cases: number of digits of the seconds, sign, with or without nanoseconds)
VP_HARNESS(h_duration_encode) {
  const auto c = static_cast<unsigned>(vp_case(48));
  const unsigned nd = c / 4 + 1;
  const bool neg = c % 2 != 0, frac = c / 2 % 2 != 0;
  std::array<char, 32> spec{};
  std::size_t len = 0;
  if (neg) spec[len++] = '-';
  std::int64_t sec = 0;
  for (unsigned k = 0; k < nd; ++k) {
    auto x = static_cast<std::int64_t>(vp_size("digit", 9));
    vp_assume(k > 0 || nd == 1 || x > 0);
    sec = sec * 10 + x, spec[len++] = static_cast<char>('0' + x);
  }
  vp_assume(sec <= limit);
  std::int32_t nanos = 0;
  if (frac) {
    unsigned d[9];
    for (auto &x : d) x = static_cast<unsigned>(vp_size("digit", 9)), nanos = nanos * 10 + static_cast<std::int32_t>(x);
    vp_assume(nanos > 0);
    unsigned n = 9;
    if (d[6] + d[7] + d[8] == 0) n = d[3] + d[4] + d[5] == 0 ? 3 : 6;
    spec[len++] = '.';
    for (unsigned k = 0; k < n; ++k) spec[len++] = static_cast<char>('0' + d[k]);
  } else if (neg) {
    vp_assume(sec > 0);
  }
  spec[len++] = 's';
  dur v{neg ? -sec : sec, neg ? -nanos : nanos};
  std::array<char, 32> buf{};
  vp_assert(hp::duration_codec::max_encode_size(v) >= len, "the predicted size fits");
  vp_assert(hp::duration_codec::encode(v, buf) == static_cast<std::int64_t>(len), "length of the canonical text");
  bool same = true;
  for (std::size_t k = 0; k < len; ++k) same = same && buf[k] == spec[k];
  vp_assert(same, "the text is the canonical text of the duration");
  vp_cover("end");
}
//@ props=P20 cases=60 cost=10
// the canonical text parses to the duration (cases: digits of the seconds; no fraction or 3, 6, 9, or 1 digits)
VP_HARNESS(h_duration_decode_value) {
  constexpr unsigned nfs[] = {0, 3, 6, 9, 1};
  const auto c = static_cast<unsigned>(vp_case(60));
  const unsigned nd = c / 5 + 1, nf = nfs[c % 5];
  const bool neg = vp_split_u64(vp_size("negative", 1)) != 0;
  std::string t = neg ? "-" : "";
  std::int64_t sec = 0;
  for (unsigned k = 0; k < nd; ++k) {
    auto x = static_cast<std::int64_t>(vp_size("digit", 9));
    sec = sec * 10 + x, t.push_back(static_cast<char>('0' + x));
  }
  std::int32_t nanos = 0;
  if (nf) t.push_back('.');
  for (unsigned k = 0; k < 9; ++k) {
    std::int32_t x = 0;
    if (k < nf) x = static_cast<std::int32_t>(vp_size("digit", 9)), t.push_back(static_cast<char>('0' + x));
    nanos = nanos * 10 + x;
  }
  t.push_back('s');
  dur w{77, 77};
  no_ctx ctx;
  bool ok = hp::duration_codec::decode(std::string_view(t), w, ctx);
  if (sec > limit) {
    vp_assert(!ok, "durations out of range are rejected");
    return;
  }
  vp_assert(ok, "durations in range are accepted");
  vp_assert(w.seconds == (neg ? -sec : sec), "seconds");
  vp_assert(w.nanos == (neg ? -nanos : nanos), "nanoseconds");
  vp_cover("end");
}
//@ props=P20 bound="texts of 0..9 characters" tbound="texts of 0..16 characters" cases=10 tcases=17 covers=rejected cost=30
// a text not in the format is rejected, a text in the format is accepted
VP_HARNESS(h_duration_decode_any) {
  const auto n = static_cast<std::size_t>(vp_case(17));
  std::string t(n, ' ');
  vp_bytes(t.data(), n, "text");
  // -? digit+ ( . digit{1,9} )? s
  int state = 0; // 0 start, 1 sign, 2 seconds, 3 point, 4.. fraction, 20 end, -1 bad
  for (std::size_t k = 0; k < n; ++k) {
    const bool d = digit(t[k]);
    int next = -1;
    next = (state <= 2 && state >= 0 && d) ? 2 : next;
    next = (state == 0 && t[k] == '-') ? 1 : next;
    next = (state == 2 && t[k] == '.') ? 3 : next;
    next = (state >= 3 && state < 12 && d) ? state + 1 : next;
    next = ((state == 2 || (state >= 4 && state <= 12)) && t[k] == 's') ? 20 : next;
    state = next;
  }
  dur w{77, 77};
  no_ctx ctx;
  vp_freeze_ro(t.data());
  bool ok = hp::duration_codec::decode(std::string_view(t), w, ctx);
  vp_assert(ok == (state == 20) || (n > 12 && !ok && (w.seconds < 0 || w.seconds > limit)), "exactly the format is accepted");
  if (ok) vp_assert(w.seconds >= -limit && w.seconds <= limit && w.nanos > -1'000'000'000 && w.nanos < 1'000'000'000 &&
                    (w.seconds == 0 || w.nanos == 0 || (w.seconds < 0) == (w.nanos < 0)), "the duration is in range");
  if (ok) vp_cover("accepted");
  else vp_cover("rejected");
}
