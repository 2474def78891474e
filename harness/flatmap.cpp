// flat_map: every operation takes a well-formed map (strictly increasing keys, arbitrary values) to the well-formed
// map an abstract map would become.  The pre-state is arbitrary, so histories follow by induction over operations.
#include "vp.hpp"
#include "hpp_proto/flat_map.hpp"
#include <new>
namespace {
using K = std::int32_t;
using V = std::uint32_t;
using FM = stdext::flat_map<K, V>;
constexpr unsigned MAX = 8;
struct abstract { // the abstract map, as a list of pairs; later entries of a key override
  K k[MAX];
  V v[MAX];
  bool live[MAX];
  unsigned n = 0;
  const V *find(K q) const {
    for (unsigned i = n; i-- > 0;)
      if (k[i] == q)
        return live[i] ? &v[i] : nullptr;
    return nullptr;
  }
  void put(K a, V b) { k[n] = a, v[n] = b, live[n++] = true; }
  void del(K a) { k[n] = a, v[n] = 0, live[n++] = false; }
  void put_new(K a, V b) {
    if (!find(a))
      put(a, b);
  }
};
K anyk(const char *n = "k") { return static_cast<K>(vp_u32(n)); }
FM make(abstract &a, unsigned n) {
  std::vector<K> ks;
  std::vector<V> vs;
  for (unsigned i = 0; i < n; i++) {
    K k = anyk();
    V v = vp_u32("v");
    vp_assume(i == 0 || ks.back() < k);
    ks.push_back(k), vs.push_back(v);
    a.put(k, v);
  }
  return FM(stdext::sorted_unique, std::move(ks), std::move(vs));
}
void check(const FM &m, const abstract &a, K q) {
  auto &ks = m.keys();
  auto &vs = m.values();
  vp_assert(ks.size() == vs.size() && m.size() == ks.size() && m.empty() == ks.empty(), "as many keys as values");
  const V *got = nullptr;
  for (std::size_t i = 0; i < ks.size(); i++) {
    vp_assert(i == 0 || ks[i - 1] < ks[i], "keys are strictly increasing");
    if (ks[i] == q)
      got = &vs[i];
  }
  auto *w = a.find(q);
  vp_assert((got != nullptr) == (w != nullptr), "an arbitrary key is present exactly when the abstract map has it");
  vp_assert(!got || *got == *w, "with the abstract map's value");
}
// result iterator of an insertion refers to the key
template <typename It> void at(const It &it, K k, V v) { vp_assert(it->first == k && it->second == v, "the result refers to the key"); }
// ---- lookups, in a map of n arbitrary elements
template <typename M> void lookup(M &m, const abstract &a, K q) {
  auto *w = a.find(q);
  auto it = m.find(q);
  vp_assert((it != m.end()) == (w != nullptr), "find");
  if (it != m.end())
    at(it, q, *w);
  vp_assert(m.contains(q) == (w != nullptr) && m.count(q) == (w ? 1U : 0U), "contains and count");
  std::ptrdiff_t lt = 0, le = 0;
  for (unsigned i = 0; i < a.n; i++) {
    lt += a.k[i] < q;
    le += a.k[i] <= q;
  }
  vp_assert(m.lower_bound(q) - m.begin() == lt, "lower_bound");
  vp_assert(m.upper_bound(q) - m.begin() == le, "upper_bound");
  auto r = m.equal_range(q);
  vp_assert(r.first - m.begin() == lt && r.second - m.begin() == le, "equal_range");
  unsigned i = 0;
  for (auto e : m) {
    vp_assert(e.first == a.k[i] && e.second == a.v[i], "iteration visits every pair in key order");
    ++i;
  }
  vp_assert(i == a.n && m.end() - m.begin() == static_cast<std::ptrdiff_t>(a.n), "and nothing else");
  auto rit = m.rbegin();
  for (; rit != m.rend(); ++rit) {
    --i;
    vp_assert((*rit).first == a.k[i] && (*rit).second == a.v[i], "reverse iteration");
  }
  vp_assert(i == 0, "reverse iteration visits everything");
}
} // namespace
//@ props=P21 cases=6 bound="maps of 0..5 elements"
VP_HARNESS(h_fm_lookup) {
  abstract a;
  FM m = make(a, vp_case(6));
  lookup(m, a, anyk("q"));
  vp_cover("end");
}
//@ props=P21 cases=6 bound="maps of 0..5 elements"
VP_HARNESS(h_fm_lookup_const) {
  abstract a;
  const FM m = make(a, vp_case(6));
  lookup(m, a, anyk("q"));
  vp_cover("end");
}
//@ props=P21 cases=6 bound="maps of 0..5 elements"
VP_HARNESS(h_fm_at) {
  abstract a;
  FM m = make(a, vp_case(6));
  K q = anyk("q");
  auto *w = a.find(q);
  bool thrown = false;
  const V *p = nullptr;
  try {
    p = &m.at(q);
  } catch (const std::out_of_range &) {
    thrown = true;
  }
  vp_assert(thrown == !w && (thrown || *p == *w), "at() returns the value of a present key and throws otherwise");
  vp_cover("end");
}
//@ props=P21 cases=36 bound="maps of 0..5 elements" cost=10
VP_HARNESS(h_fm_insert) {
  unsigned c = vp_case(36), n = c % 6;
  abstract a;
  FM m = make(a, n);
  K k = anyk("key"), q = anyk("q");
  V v = vp_u32("val");
  bool had = a.find(k) != nullptr;
  V old = had ? *a.find(k) : 0;
  switch (c / 6) {
  case 0: {
    auto [it, fresh] = m.insert(std::pair<const K, V>(k, v));
    vp_assert(fresh == !had, "insert reports whether the key is new");
    at(it, k, had ? old : v);
    a.put_new(k, v);
    break;
  }
  case 1: {
    auto [it, fresh] = m.emplace(k, v);
    vp_assert(fresh == !had, "emplace reports whether the key is new");
    at(it, k, had ? old : v);
    a.put_new(k, v);
    break;
  }
  case 2: {
    auto [it, fresh] = m.insert_or_assign(k, v);
    vp_assert(fresh == !had, "insert_or_assign reports whether the key is new");
    at(it, k, v);
    a.put(k, v);
    break;
  }
  case 3: {
    auto [it, fresh] = m.try_emplace(k, v);
    vp_assert(fresh == !had, "try_emplace reports whether the key is new");
    at(it, k, had ? old : v);
    a.put_new(k, v);
    break;
  }
  case 4: {
    V &r = m[k];
    vp_assert(r == (had ? old : 0), "operator[] finds the value or creates a zero");
    r = v;
    a.put(k, v);
    break;
  }
  case 5: {
    auto [it, fresh] = m.try_emplace(static_cast<K &&>(k), v);
    vp_assert(fresh == !had, "try_emplace reports whether the key is new");
    a.put_new(k, v);
    break;
  }
  }
  check(m, a, q);
  vp_cover("end");
}
//@ props=P21 cases=60 bound="maps of 0..4 elements, every hint" cost=10
// the hint is any position of the map, right or wrong
VP_HARNESS(h_fm_hint) {
  unsigned c = vp_case(60), s = c % 15, op = c / 15;
  unsigned n = 0, pos = s; // s enumerates the pairs pos <= n
  while (pos > n)
    pos -= ++n;
  abstract a;
  FM m = make(a, n);
  K k = anyk("key"), q = anyk("q");
  V v = vp_u32("val");
  bool had = a.find(k) != nullptr;
  V old = had ? *a.find(k) : 0;
  auto hint = static_cast<const FM &>(m).begin() + static_cast<std::ptrdiff_t>(pos);
  switch (op) {
  case 0: at(m.insert_or_assign(hint, k, v), k, v), a.put(k, v); break;
  case 1: at(m.insert_or_assign(hint, static_cast<K &&>(k), v), k, v), a.put(k, v); break;
  case 2: at(m.try_emplace(hint, k, v), k, had ? old : v), a.put_new(k, v); break;
  case 3: at(m.insert(hint, std::pair<const K, V>(k, v)), k, had ? old : v), a.put_new(k, v); break;
  }
  check(m, a, q);
  vp_cover("end");
}
//@ props=P21 cases=5 bound="maps of 0..4 elements"
VP_HARNESS(h_fm_erase_key) {
  abstract a;
  FM m = make(a, vp_case(5));
  K q = anyk("q"), k = anyk("key");
  bool had = a.find(k) != nullptr;
  vp_assert(m.erase(k) == (had ? 1U : 0U), "erase(key) counts what it removed");
  a.del(k);
  check(m, a, q);
  vp_cover("end");
}
//@ props=P21 cases=10 bound="maps of 1..4 elements, every position"
VP_HARNESS(h_fm_erase_at) {
  unsigned n = 1, pos = vp_case(10);
  while (pos >= n)
    pos -= n++;
  for (int constant = 0; constant < 2; constant++) {
    abstract a;
    FM m = make(a, n);
    K q = anyk("q");
    auto p = static_cast<std::ptrdiff_t>(pos);
    auto it = constant ? m.erase(static_cast<const FM &>(m).begin() + p) : m.erase(m.begin() + p);
    vp_assert(it - m.begin() == p, "erase returns the position after the removed element");
    a.del(a.k[pos]);
    check(m, a, q);
  }
  vp_cover("end");
}
//@ props=P21 cases=64 bound="maps of 0..3 elements, every range"
VP_HARNESS(h_fm_erase_range) {
  unsigned c = vp_case(64), n = c / 16, f = c / 4 % 4, l = c % 4;
  if (f <= l && l <= n) {
    abstract a;
    FM m = make(a, n);
    K q = anyk("q");
    auto b = static_cast<const FM &>(m).begin();
    auto it = m.erase(b + static_cast<std::ptrdiff_t>(f), b + static_cast<std::ptrdiff_t>(l));
    vp_assert(it - m.begin() == static_cast<std::ptrdiff_t>(f), "erase returns the position after the removed range");
    for (unsigned i = f; i < l; i++)
      a.del(a.k[i]);
    check(m, a, q);
  } else
    vp_assert(true, "not a range");
  vp_cover("end");
}
//@ props=P21 cases=15 bound="0..4 pairs in any order" cost=10
// construction from unsorted, possibly equal keys
VP_HARNESS(h_fm_construct) {
  unsigned c = vp_case(15), n = c % 5;
  K k[4];
  V v[4];
  std::vector<K> ks;
  std::vector<V> vs;
  std::vector<std::pair<K, V>> ps;
  for (unsigned i = 0; i < n; i++) {
    k[i] = anyk(), v[i] = vp_u32("v");
    ks.push_back(k[i]), vs.push_back(v[i]), ps.emplace_back(k[i], v[i]);
  }
  K q = anyk("q");
  FM m;
  if (c / 5 == 0)
    m = FM(std::move(ks), std::move(vs));
  else if (c / 5 == 1)
    m = FM(ps.begin(), ps.end());
  else
    m.insert(ps.begin(), ps.end());
  auto &mk = m.keys();
  auto &mv = m.values();
  vp_assert(mk.size() == mv.size(), "as many keys as values");
  const V *got = nullptr;
  for (std::size_t i = 0; i < mk.size(); i++) {
    vp_assert(i == 0 || mk[i - 1] < mk[i], "keys are strictly increasing");
    if (mk[i] == q)
      got = &mv[i];
  }
  bool present = false, paired = false;
  unsigned first = n;
  for (unsigned i = 0; i < n; i++)
    if (k[i] == q) {
      present = true;
      first = first == n ? i : first;
      paired |= got && *got == v[i];
    }
  vp_assert((got != nullptr) == present, "exactly the given keys are present");
  vp_assert(!present || paired, "each with a value it was given with");
  vp_assert(!present || c / 5 != 2 || *got == v[first], "insertion keeps the value already there");
  vp_cover("end");
}
//@ props=P21 cases=8 bound="maps of up to 2 elements" cost=10
VP_HARNESS(h_fm_whole) {
  unsigned c = vp_case(8);
  abstract a, b;
  FM x = make(a, c % 3), y = make(b, 2);
  K q = anyk("q");
  switch (c) {
  case 0: case 1: case 2: { // swap, copy, move
    x.swap(y);
    check(x, b, q), check(y, a, q);
    FM z(x), w(std::move(y));
    check(z, b, q), check(w, a, q), check(x, b, q);
    z = w;
    check(z, a, q), check(w, a, q);
    break;
  }
  case 3: { // extract and replace
    auto cs = std::move(y).extract();
    vp_assert(y.empty() && cs.keys.size() == 2 && cs.values.size() == 2, "extract empties the map");
    x.replace(std::move(cs.keys), std::move(cs.values));
    check(x, b, q);
    break;
  }
  case 4: { // clear
    y.clear();
    check(y, abstract{}, q);
    break;
  }
  case 5: case 6: case 7: { // comparison
    bool eq = a.n == b.n;
    for (unsigned i = 0; i < a.n; i++)
      eq = eq && a.k[i] == b.k[i] && a.v[i] == b.v[i];
    vp_assert((x == y) == eq && (x != y) == !eq, "equality compares keys and values");
    break;
  }
  }
  vp_cover("end");
}
//@ props=P21 cases=6 bound="0..2 elements into maps of 0..1 elements" cost=10
// insertion of a sorted range
VP_HARNESS(h_fm_insert_sorted) {
  unsigned c = vp_case(6);
  abstract a;
  FM m = make(a, c % 2);
  std::vector<std::pair<K, V>> ps;
  for (unsigned i = 0; i < c / 2; i++) {
    K k = anyk("key");
    V v = vp_u32("val");
    vp_assume(i == 0 || ps.back().first < k);
    ps.emplace_back(k, v);
    a.put_new(k, v);
  }
  K q = anyk("q");
  m.insert(stdext::sorted_unique, ps.begin(), ps.end());
  check(m, a, q);
  vp_cover("end");
}
