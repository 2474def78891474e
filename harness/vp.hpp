// Harness vocabulary.  A harness function states one contract (or lemma over contracts) about real code:
//   vp_assume  = requires      vp_assert = ensures      vp_cover = reachability (vacuity guard)
// Under the verifier the inputs below are symbolic (all values at once).  Natively (vp_native.cpp) the
// same functions read one concrete case, so every harness is also a replay driver for counterexamples.
#pragma once
#include <algorithm>
#include <array>
#include <bit>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <memory_resource>
#include <optional>
#include <span>
#include <string>
#include <string_view>
#include <variant>
#include <vector>
extern "C" {
std::uint64_t vp_u64(const char *name);                       // arbitrary 64-bit value
std::uint32_t vp_u32(const char *name);
std::uint16_t vp_u16(const char *name);
std::uint8_t vp_u8(const char *name);
bool vp_bool(const char *name);
std::uint64_t vp_size(const char *name, std::uint64_t max);   // arbitrary value in [0,max]
std::uint64_t vp_case(std::uint64_t n);                       // complete enumeration of 0..n-1
void vp_bytes(void *p, std::size_t n, const char *name);      // n (concrete) arbitrary bytes
std::byte *vp_buffer(std::size_t n, const char *name);        // heap object of exactly n arbitrary bytes
void vp_assume(bool c);
void vp_assert(bool c, const char *label);
void vp_requires(bool c, const char *label);                  // callee precondition at a call site
void vp_cover(const char *label);
void vp_allow_throw();
void vp_freeze_ro(const void *p);                             // frame condition: nothing may write this object
void vp_unfreeze(const void *p);
std::uint64_t vp_split_u64(std::uint64_t v);                  // complete case split (no-op natively)
std::uint64_t vp_index(std::uint64_t n);                      // arbitrary index < n: "for all k" in a postcondition
void vp_print(const char *label, std::uint64_t v);
}
#ifdef VP_NATIVE
struct vp_reg {
  vp_reg(const char *n, void (*f)());
};
#define VP_HARNESS(name)                                                                                               \
  extern "C" void name();                                                                                              \
  static vp_reg vp_reg_##name{#name, name};                                                                            \
  extern "C" void name()
#else
#define VP_HARNESS(name) extern "C" void name()
#endif
