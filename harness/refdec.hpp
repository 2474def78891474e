// Reference decoder used as an oracle: a direct transcription of the protobuf wire-format rules, written for clarity,
// independent of the library.  A schema is a class with  static int kind(unsigned number)  and sub-schemas.
#pragma once
#include "rich.hpp"
namespace ref {
enum kind { UNKNOWN, VAR, F32, F64, LEN, PACKVAR, PACKF32, MSG, GRP };
struct cur {
  const std::uint8_t *p;
  unsigned i, n;
};
inline bool varint(cur &c, unsigned maxbytes, std::uint64_t &v) {
  v = 0;
  for (unsigned k = 0; k < maxbytes; k++) {
    if (c.i >= c.n)
      return false;
    std::uint8_t b = c.p[c.i++];
    v |= static_cast<std::uint64_t>(b & 0x7f) << (7 * k);
    if (!(b & 0x80))
      return true;
  }
  return false;
}
inline bool varint32(cur &c, std::uint32_t &v) { // tags and lengths
  std::uint64_t w;
  if (!varint(c, 5, w) || (w >> 32))
    return false;
  v = static_cast<std::uint32_t>(w);
  return true;
}
inline bool tag(cur &c, std::uint32_t &num, unsigned &wt) {
  std::uint32_t t;
  if (!varint32(c, t) || (t >> 3) == 0)
    return false;
  num = t >> 3;
  wt = t & 7;
  return true;
}
inline bool skip_group(cur &c, std::uint32_t num);
inline bool skip(cur &c, std::uint32_t num, unsigned wt) {
  std::uint64_t v;
  std::uint32_t l;
  switch (wt) {
  case 0: return varint(c, 10, v);
  case 1: l = 8; break;
  case 5: l = 4; break;
  case 2:
    if (!varint32(c, l))
      return false;
    break;
  case 3: return skip_group(c, num);
  default: return false;
  }
  if (l > c.n - c.i)
    return false;
  c.i += static_cast<unsigned>(vp_split_u64(l));
  return true;
}
inline bool skip_group(cur &c, std::uint32_t num) {
  while (c.i < c.n) {
    std::uint32_t n2;
    unsigned w2;
    if (!tag(c, n2, w2))
      return false;
    if (w2 == 4)
      return n2 == num;
    if (!skip(c, n2, w2))
      return false;
  }
  return false;
}
struct result {
  bool ok = true;
  bool mismatch = false; // a declared field came with another wire type (the library may refuse such input)
  std::uint64_t val[9] = {}; // last varint / fixed value of fields 1..8
  unsigned cnt[9] = {};      // number of records
  unsigned off[9] = {}, len[9] = {};
  std::uint8_t unk[16];
  unsigned nunk = 0;
};
template <typename S> void message(cur &c, result &r, std::uint32_t group);
template <typename S> bool one(cur &c, result &r, unsigned start, std::uint32_t num, unsigned wt) {
  const int k = S::kind(num);
  static constexpr unsigned want[] = {8, 0, 5, 1, 2, 0, 5, 2, 3};
  if (k != UNKNOWN)
    num = static_cast<std::uint32_t>(vp_split_u64(num));
  std::uint64_t v = 0;
  const bool packed = (k == PACKVAR || k == PACKF32) && wt == 2;
  if (k == UNKNOWN || (wt != want[k] && !packed)) {
    if (k != UNKNOWN)
      r.mismatch = true;
    if (!skip(c, num, wt))
      return false;
    for (unsigned i = start; i < c.i && r.nunk < 16; i++)
      r.unk[r.nunk++] = c.p[i];
    return true;
  }
  if (wt == 0) {
    if (!varint(c, 10, v))
      return false;
  } else if (wt == 5 || wt == 1) {
    unsigned l = wt == 5 ? 4 : 8;
    if (l > c.n - c.i)
      return false;
    for (unsigned j = 0; j < l; j++)
      v |= static_cast<std::uint64_t>(c.p[c.i + j]) << (8 * j);
    c.i += l;
  } else if (wt == 2) {
    std::uint32_t l;
    if (!varint32(c, l) || l > c.n - c.i)
      return false;
    l = static_cast<std::uint32_t>(vp_split_u64(l));
    if (num < 9) {
      r.off[num] = c.i;
      r.len[num] = l;
    }
    cur sub{c.p, c.i, c.i + l};
    if (k == PACKVAR) {
      while (sub.i < sub.n) {
        if (!varint(sub, 10, v))
          return false;
        if (num < 9)
          r.val[num] = v;
        r.cnt[num]++;
      }
      c.i += l;
      return true;
    }
    if (k == PACKF32 && l % 4 != 0)
      return false;
    if (k == MSG) {
      result rs;
      message<typename S::sub>(sub, rs, 0);
      r.mismatch = r.mismatch || rs.mismatch;
      if (!rs.ok)
        return false;
    }
    c.i += l;
  } else {
    result rs;
    message<typename S::sub>(c, rs, num);
    r.mismatch = r.mismatch || rs.mismatch;
    if (!rs.ok)
      return false;
  }
  if (num < 9) {
    r.val[num] = v;
    r.cnt[num]++;
  }
  return true;
}
template <typename S> void message(cur &c, result &r, std::uint32_t group) {
  while (c.i < c.n) {
    unsigned start = c.i;
    std::uint32_t num;
    unsigned wt;
    r.ok = tag(c, num, wt);
    if (!r.ok)
      return;
    if (wt == 4) {
      r.ok = num == group;
      return;
    }
    r.ok = one<S>(c, r, start, num, wt);
    if (!r.ok)
      return;
  }
  r.ok = group == 0;
}
inline bool bytes_equal(const void *a, std::size_t n, const void *b, std::size_t m) {
  return n == m && (n == 0 || std::memcmp(a, b, n) == 0);
}
template <typename S> result decode(const void *p, std::size_t n) {
  cur c{static_cast<const std::uint8_t *>(p), 0, static_cast<unsigned>(n)};
  result r;
  message<S>(c, r, 0);
  return r;
}
// schemas of the messages in rich.hpp
struct none {
  using sub = none;
  static int kind(unsigned) { return UNKNOWN; }
};
struct u32 {
  using sub = none;
  static int kind(unsigned n) { return n == 1 ? VAR : UNKNOWN; }
};
struct inner {
  using sub = none;
  static int kind(unsigned n) { return n == 1 ? VAR : n == 2 ? LEN : UNKNOWN; }
};
struct node {
  using sub = node;
  static int kind(unsigned n) { return n == 1 ? VAR : n == 2 ? MSG : UNKNOWN; }
};
struct choice {
  using sub = inner;
  static int kind(unsigned n) { return n == 1 || n == 4 || n == 20 ? VAR : n == 2 ? LEN : n == 3 ? MSG : UNKNOWN; }
};
struct mix {
  using sub = inner;
  static int kind(unsigned n) {
    static constexpr std::uint8_t k[] = {UNKNOWN, VAR, LEN, PACKVAR, LEN, MSG, GRP, VAR, LEN};
    return n < 9 ? k[n] : n == 16 ? F32 : UNKNOWN;
  }
};
} // namespace ref
