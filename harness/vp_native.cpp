// Native side of the harness vocabulary: replays one recorded input list against the real code, or
// searches for a failing input with a seeded generator.
#define VP_NATIVE
#include "vp.hpp"
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <random>
#include <fstream>
#include <sstream>
#include <iostream>
#include <csignal>
#include <unistd.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace {
struct skip {};
std::map<std::string, void (*)()> &table() { static std::map<std::string, void (*)()> t; return t; }
struct item { std::string n; bool isbuf; std::uint64_t v; std::vector<unsigned char> b; };
std::vector<item> given, used;
bool replay = false, allow_throw = false, dumped = false;
std::size_t pos = 0;
std::mt19937_64 rng;
std::uint64_t fixed_case = ~0ULL;
std::string dump_path;
std::vector<void *> bufs;
std::uint64_t gen(unsigned w) {
  std::uint64_t v;
  switch (rng() % 6) {
  case 0: v = rng() % 4; break;
  case 1: v = rng() % 300; break;
  case 2: { unsigned s = rng() % w; v = (1ULL << s) + (rng() % 3) - 1; break; }
  case 3: v = ~0ULL - rng() % 3; break;
  case 4: v = rng() >> (rng() % 64); break;
  default: v = rng();
  }
  return w == 64 ? v : v & ((1ULL << w) - 1);
}
std::uint64_t take(const char *n, unsigned w) {
  std::uint64_t v;
  if (replay) {
    if (pos >= given.size() || given[pos].isbuf) { std::puts("REPLAY-EXHAUSTED"); throw skip{}; }
    v = given[pos++].v;
  } else v = gen(w);
  used.push_back({n, false, v, {}});
  return v;
}
void fill(unsigned char *p, std::size_t n, const char *nm) {
  if (replay) {
    if (pos >= given.size() || !given[pos].isbuf) { std::puts("REPLAY-EXHAUSTED"); throw skip{}; }
    auto &b = given[pos++].b;
    for (std::size_t i = 0; i < n; i++) p[i] = i < b.size() ? b[i] : 0;
  } else {
    unsigned mode = rng() % 3;
    for (std::size_t i = 0; i < n; i++) p[i] = mode == 0 ? rng() : mode == 1 ? rng() % 24 : (rng() % 3 ? rng() % 130 : rng());
  }
  used.push_back({nm, true, n, {p, p + n}});
}
void dump() {
  if (dumped || dump_path.empty()) return;
  dumped = true;
  if (FILE *f = std::fopen(dump_path.c_str(), "w")) {
    for (auto &i : used) {
      std::replace(i.n.begin(), i.n.end(), ' ', '_');
      if (!i.isbuf) std::fprintf(f, "i %s %llu\n", i.n.c_str(), (unsigned long long)i.v);
      else {
        std::fprintf(f, "b %s %zu ", i.n.c_str(), i.b.size());
        for (auto c : i.b) std::fprintf(f, "%02x", c);
        std::fprintf(f, "\n");
      }
    }
    std::fclose(f);
  }
}
void fail(const char *what) {
  std::printf("FAILED %s\n", what);
  std::fflush(stdout);
  dump();
  std::_Exit(1);
}
} // namespace
vp_reg::vp_reg(const char *n, void (*f)()) { table()[n] = f; }
extern "C" {
std::uint64_t vp_u64(const char *n) { return take(n, 64); }
std::uint32_t vp_u32(const char *n) { return (std::uint32_t)take(n, 32); }
std::uint16_t vp_u16(const char *n) { return (std::uint16_t)take(n, 16); }
std::uint8_t vp_u8(const char *n) { return (std::uint8_t)take(n, 8); }
bool vp_bool(const char *n) { return take(n, 1) & 1; }
std::uint64_t vp_size(const char *n, std::uint64_t max) {
  std::uint64_t v;
  if (replay) { v = take(n, 64); if (v > max) throw skip{}; return v; }
  std::uint64_t m = std::min<std::uint64_t>(max, (rng() % 8) ? 40 : 20000);
  v = m == ~0ULL ? rng() : rng() % (m + 1);
  used.push_back({n, false, v, {}});
  return v;
}
std::uint64_t vp_case(std::uint64_t n) { return fixed_case != ~0ULL ? fixed_case % n : rng() % n; }
void vp_bytes(void *p, std::size_t n, const char *nm) { fill((unsigned char *)p, n, nm); }
std::byte *vp_buffer(std::size_t n, const char *nm) {
  if (n > (1ULL << 31)) { std::puts("REPLAY-TOO-BIG"); throw skip{}; }
  auto *p = (unsigned char *)std::malloc(n);
  bufs.push_back(p);
  fill(p, n, nm);
  return (std::byte *)p;
}
void vp_assume(bool c) { if (!c) throw skip{}; }
void vp_assert(bool c, const char *label) { if (!c) fail(label); }
void vp_requires(bool c, const char *label) { if (!c) fail(label); }
void vp_cover(const char *) {}
void vp_allow_throw() { allow_throw = true; }
void vp_freeze_ro(const void *) {}
void vp_unfreeze(const void *) {}
std::uint64_t vp_split_u64(std::uint64_t v) { return v; }
std::uint64_t vp_index(std::uint64_t n) {
  std::uint64_t v = replay ? take("index", 64) : (n ? rng() % n : 0);
  if (!replay) used.push_back({"index", false, v, {}});
  if (v >= n) throw skip{};
  return v;
}
void vp_print(const char *l, std::uint64_t v) { std::printf("%s=%llu\n", l, (unsigned long long)v); }
#ifdef HPP_PROTO_VERIF_UTF8
#endif
}
static int run1(void (*f)()) {
  used.clear(); pos = 0; allow_throw = false;
  alarm(20);
  int r = 0;
  try { f(); }
  catch (skip &) { r = 77; }
  catch (std::exception &e) { if (!allow_throw) { std::printf("exception %s\n", e.what()); fail("no exception escapes"); } }
  for (auto *p : bufs) std::free(p);
  bufs.clear();
  return r;
}
int main(int argc, char **argv) {
  // replay HARNESS FILE CASE | search HARNESS SEED SECONDS DUMP CASE
  std::string mode = argv[1], h = argv[2];
  auto it = table().find(h);
  if (it == table().end()) { std::puts("NO-SUCH-HARNESS"); return 3; }
#if defined(__SANITIZE_ADDRESS__) || defined(VP_ASAN)
  __sanitizer_set_death_callback(dump);
#endif
  std::set_terminate([] { std::puts("FAILED terminate"); std::fflush(stdout); dump(); std::_Exit(1); });
  std::signal(SIGALRM, [](int) { std::puts("FAILED does not terminate within 20 s"); std::fflush(stdout); dump(); std::_Exit(1); });
  if (mode == "replay") {
    replay = true;
    if (argc > 4) fixed_case = std::strtoull(argv[4], nullptr, 10);
    std::ifstream in(argv[3]);
    std::string line;
    while (std::getline(in, line)) {
      if (line.empty() || line[0] == '#') continue;
      std::istringstream ls(line);
      std::string k, n, hex; std::uint64_t v;
      ls >> k >> n >> v;
      item x{n, k == "b", v, {}};
      if (k == "b") { ls >> hex; for (std::size_t i = 0; i + 1 < hex.size(); i += 2) x.b.push_back((unsigned char)std::stoul(hex.substr(i, 2), nullptr, 16)); }
      given.push_back(std::move(x));
    }
    int r = run1(it->second);
    std::puts(r ? "ASSUMPTION-NOT-MET" : "PASSED");
    return r;
  }
  std::uint64_t seed = std::strtoull(argv[3], nullptr, 10);
  double secs = std::atof(argv[4]);
  dump_path = argv[5];
  if (argc > 6) fixed_case = std::strtoull(argv[6], nullptr, 10);
  rng.seed(seed * 0x9E3779B97F4A7C15ULL + 1);
  std::time_t end = std::time(nullptr) + (std::time_t)secs;
  std::uint64_t iters = 0, ok = 0;
  while ((iters & 63) || std::time(nullptr) <= end) { iters++; ok += run1(it->second) == 0; if (iters > 3000000) break; }
  std::printf("SEARCHED %llu inputs, %llu met the preconditions\n", (unsigned long long)iters, (unsigned long long)ok);
  return 0;
}
