// Stand-in for the two glaze functions duration_codec.hpp calls (glaze is not in this sandbox): ASSUMED contracts.
#pragma once
#include <cassert>
#include <charconv>
#include <cstddef>
#include <cstdint>
#include <string_view>
namespace glz {
// writes the shortest decimal of the value, returns the end of it
inline char *to_chars(char *p, std::uint64_t v) { return std::to_chars(p, p + 20, v).ptr; }
// writes one character at ix and advances ix
template <char C>
void dump(auto &&b, std::size_t &ix) { b[ix] = C, ++ix; }
} // namespace glz
