// Timestamps: text <-> (seconds, nanos) against the proleptic Gregorian calendar and RFC 3339.
#include "vp.hpp"
#include <cassert>
#include <charconv>
#include <hpp_proto/json/timestamp_codec.hpp>
namespace hp = hpp_proto;
namespace {
struct ts {
  std::int64_t seconds = 0;
  std::int32_t nanos = 0;
};
struct no_ctx {};
constexpr bool leap(std::int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
constexpr unsigned days_in(std::int64_t y, unsigned m) {
  constexpr unsigned char n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return n[m - 1] + (m == 2 && leap(y) ? 1u : 0u);
}
// days from 1970-01-01 to y-m-1, counted from the calendar's definition
constexpr std::int64_t days_before(std::int64_t y, unsigned m) {
  std::int64_t p = y - 1, n = p * 365 + p / 4 - p / 100 + p / 400 - 719162;
  for (unsigned k = 1; k < m; ++k) n += days_in(y, k);
  return n;
}
constexpr std::int64_t first_second = -62'135'596'800, last_second = 253'402'300'799;
static_assert(days_before(1, 1) * 86400 == first_second && days_before(10000, 1) * 86400 - 1 == last_second);
constexpr int years[] = {1970, 1969, 2000, 1, 9999, 1900, 2024, 1600, 4, 1582, 400, 2100, 1972, 1000, 999, 8000,
                         2, 3, 100, 101, 1599, 1601, 1800, 1899, 1901, 1904, 1968, 1971, 1999, 2001, 2020, 2023,
                         2025, 2038, 2099, 2101, 2399, 2400, 2401, 9996, 9997, 9998, 5000, 4000, 3999, 1234, 5678, 10};
void put2(char *p, unsigned v) { p[0] = static_cast<char>('0' + v / 10), p[1] = static_cast<char>('0' + v % 10); }

struct moment {
  int y;
  unsigned m, d, h, mi, s, digit[9]; // nanoseconds as decimal digits
};
// that the canonical text parses back to the instant: h_timestamp_decode_value (dates, times), h_timestamp_fraction
void canonical(const moment &t, std::int64_t month_start) {
  std::uint32_t n = 0;
  for (auto x : t.digit) n = n * 10 + x;
  ts v{(month_start + (t.d - 1)) * 86400 + t.h * 3600 + t.mi * 60 + t.s, static_cast<std::int32_t>(n)};
  std::array<char, 32> buf{};
  vp_assert(hp::timestamp_codec::max_encode_size(v) >= 30, "the predicted size fits the longest text");
  std::int64_t r = hp::timestamp_codec::encode(v, buf);
  std::array<char, 32> spec{};
  std::size_t len = 19;
  put2(spec.data(), static_cast<unsigned>(t.y) / 100), put2(spec.data() + 2, static_cast<unsigned>(t.y) % 100);
  spec[4] = '-', put2(spec.data() + 5, t.m), spec[7] = '-', put2(spec.data() + 8, t.d), spec[10] = 'T';
  put2(spec.data() + 11, t.h), spec[13] = ':', put2(spec.data() + 14, t.mi), spec[16] = ':', put2(spec.data() + 17, t.s);
  if (n != 0) {
    unsigned nd = 9;
    if (t.digit[6] + t.digit[7] + t.digit[8] == 0) nd = t.digit[3] + t.digit[4] + t.digit[5] == 0 ? 3 : 6;
    spec[19] = '.';
    for (unsigned k = 0; k < nd; ++k) spec[20 + k] = static_cast<char>('0' + t.digit[k]);
    len = 20 + nd;
  }
  spec[len++] = 'Z';
  vp_assert(r == static_cast<std::int64_t>(len), "length of the canonical text");
  bool same = true;
  for (std::size_t k = 0; k < len; ++k) same = same && buf[k] == spec[k];
  vp_assert(same, "the text is the canonical text of the instant");
}

} // namespace

//@ props=P20
// values outside the protobuf range are refused, for all 64-bit seconds and 32-bit nanos
VP_HARNESS(h_timestamp_encode_refuses) {
  ts v{static_cast<std::int64_t>(vp_u64("seconds")), static_cast<std::int32_t>(vp_u32("nanos"))};
  vp_assume(v.seconds < first_second || v.seconds > last_second || v.nanos < 0 || v.nanos > 999'999'999);
  std::array<char, 32> buf{};
  vp_assert(hp::timestamp_codec::encode(v, buf) == -1, "values out of range are refused");
  vp_cover("end");
}
//@ props=P20 bound="5 years: every day and second" tbound="48 years: every day and second" cases=60 tcases=576 cost=10
// the text is the canonical RFC 3339 text of the instant (one case per month)
VP_HARNESS(h_timestamp_encode) {
  moment t{};
  const auto c = static_cast<unsigned>(vp_case(576));
  t.y = years[c / 12], t.m = c % 12 + 1;
  t.d = static_cast<unsigned>(1 + vp_size("day", 30));
  vp_assume(t.d <= days_in(t.y, t.m));
  t.h = static_cast<unsigned>(vp_size("hour", 23)), t.mi = static_cast<unsigned>(vp_size("minute", 59));
  t.s = static_cast<unsigned>(vp_size("second", 59));
  canonical(t, days_before(t.y, t.m));
  vp_cover("end");
}
//@ props=P20 bound="3 days: every second and nanosecond" tbound="48 days" cases=3 tcases=48 cost=150
// the fraction has no digits, or 3, 6 or 9 as needed
VP_HARNESS(h_timestamp_encode_nanos) {
  moment t{};
  auto c = static_cast<unsigned>(vp_case(48));
  t.y = years[c], t.m = 1 + c % 12, t.d = 1 + c % 28;
  t.h = static_cast<unsigned>(vp_size("hour", 23)), t.mi = static_cast<unsigned>(vp_size("minute", 59));
  t.s = static_cast<unsigned>(vp_size("second", 59));
  for (auto &x : t.digit) x = static_cast<unsigned>(vp_size("digit", 9));
  canonical(t, days_before(t.y, t.m));
  vp_cover("end");
}
namespace {
bool digit(char c) { return c >= '0' && c <= '9'; }
unsigned two(const char *p) { return static_cast<unsigned>((p[0] - '0') * 10 + (p[1] - '0')); }
// text of n characters: is it a valid RFC 3339 UTC time, without the year's calendar (year, month, day given)?
struct verdict {
  bool format = false;
  unsigned y = 0, m = 0, d = 0, h = 0, mi = 0, s = 0;
};
verdict read(const char *t, std::size_t n) {
  verdict v;
  if (n < 20) return v;
  bool f = t[4] == '-' && t[7] == '-' && t[10] == 'T' && t[13] == ':' && t[16] == ':' && t[n - 1] == 'Z';
  for (int k : {0, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18}) f = f && digit(t[k]);
  if (n == 21) f = false;                     // a point needs digits
  if (n > 20) f = f && t[19] == '.' && n <= 30;
  for (std::size_t k = 20; k + 1 < n; ++k) f = f && digit(t[k]);
  v.format = f;
  if (!f) return v;
  v.y = two(t) * 100 + two(t + 2), v.m = two(t + 5), v.d = two(t + 8), v.h = two(t + 11), v.mi = two(t + 14), v.s = two(t + 17);
  return v;
}
} // namespace
//@ props=P20 bound="texts of 0..31 characters" cases=32 covers=rejected cost=30
// every text not in the format, or with a field out of range, is rejected; all others are accepted
VP_HARNESS(h_timestamp_decode_any) {
  const auto n = static_cast<std::size_t>(vp_case(32));
  std::string t(n, ' ');
  vp_bytes(t.data(), n, "text");
  verdict v = read(t.data(), n);
  ts w{77, 77};
  no_ctx ctx;
  vp_freeze_ro(t.data());
  bool ok = hp::timestamp_codec::decode(std::string_view(t), w, ctx);
  if (!v.format) {
    vp_assert(!ok, "text that is not in the format is rejected");
    vp_cover("rejected");
    return;
  }
  if (v.y == 0 || v.m < 1 || v.m > 12 || v.h > 23 || v.mi > 59 || v.s > 59 || v.d < 1 || v.d > days_in(v.y, v.m)) {
    vp_assert(!ok, "fields out of range are rejected");
    return;
  }
  vp_assert(ok, "text in the format is accepted");
  vp_cover("accepted");
}
//@ props=P20 cases=9
// a fraction of one to nine digits is scaled to nanoseconds, for all digits
VP_HARNESS(h_timestamp_fraction) {
  const auto nd = static_cast<std::size_t>(vp_case(9)) + 1;
  std::string t = "2024-02-29T23:59:59.";
  std::int32_t nanos = 0;
  for (std::size_t k = 0; k < 9; ++k) {
    unsigned x = 0;
    if (k < nd) x = static_cast<unsigned>(vp_size("digit", 9)), t.push_back(static_cast<char>('0' + x));
    nanos = nanos * 10 + static_cast<std::int32_t>(x);
  }
  t.push_back('Z');
  ts w{77, 77};
  no_ctx ctx;
  bool ok = hp::timestamp_codec::decode(std::string_view(t), w, ctx);
  vp_assert(ok && w.seconds == 1'709'251'199, "text in the format is accepted");
  vp_assert(w.nanos == nanos, "the fraction is scaled to nanoseconds");
  vp_cover("end");
}
//@ props=P20 cases=12 cost=100
// parsing gives the second the calendar assigns, for every date of every year 1..9999 (one case per month)
VP_HARNESS(h_timestamp_decode_value) {
  const auto m = static_cast<unsigned>(vp_case(12)) + 1;
  unsigned dig[4], y = 0;
  for (auto &x : dig) x = static_cast<unsigned>(vp_size("digit", 9)), y = y * 10 + x;
  const auto d = static_cast<unsigned>(1 + vp_size("day", 30)), h = static_cast<unsigned>(vp_size("hour", 23)),
             mi = static_cast<unsigned>(vp_size("minute", 59)), s = static_cast<unsigned>(vp_size("second", 59));
  vp_assume(y >= 1 && d <= days_in(y, m));
  std::array<char, 20> t{};
  for (int k = 0; k < 4; ++k) t[k] = static_cast<char>('0' + dig[k]);
  t[4] = '-', put2(&t[5], m), t[7] = '-', put2(&t[8], d), t[10] = 'T', put2(&t[11], h), t[13] = ':', put2(&t[14], mi);
  t[16] = ':', put2(&t[17], s), t[19] = 'Z';
  ts w{77, 77};
  no_ctx ctx;
  bool ok = hp::timestamp_codec::decode(std::string_view(t.data(), t.size()), w, ctx);
  vp_assert(ok && w.nanos == 0, "every date and time is accepted");
  std::int64_t days = days_before(y, m) + (d - 1);
  vp_assert(w.seconds == days * 86400 + h * 3600 + mi * 60 + s, "the second is the one the calendar assigns");
  vp_cover("end");
}
