// Shared support for the replay / stand-in harnesses.  Each harness exercises
// /repo's public API against an oracle written independently of the code.
#pragma once
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>
#include <memory>
#include <iostream>

namespace h {
using u8 = unsigned char;
using u64 = std::uint64_t;
using u128 = unsigned __int128;
using i128 = __int128;

extern u64 seed;          // VERIF_SEED
extern bool thorough;     // VERIF_TIER=thorough
extern std::string only;  // obligation filter (prefix) or ""

struct Rng {
  u64 s;
  explicit Rng(u64 x = 1) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  u128 next128() { u128 a = next(); return (a << 64) | next(); }
};

// Name of the obligation being exercised and the concrete case.
void section(const char* name);
void casef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void count(bool nontrivial = true);   // one evaluation of the current case
void count_key(u64 key);              // evaluation, distinct by explicit key
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool selected(const char* name);

std::string hex(const void* p, std::size_t n);
std::string s128(u128 v);
}  // namespace h

#define SECTION(name) if (h::selected(name) && (h::section(name), true))
#define CHECK(cond, ...)                \
  do {                                  \
    h::count();                         \
    if (!(cond)) h::fail(__VA_ARGS__);  \
  } while (0)

template <typename F>
inline bool throws(F f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
template <typename E, typename F>
inline bool throws_as(F f) {
  try { f(); } catch (const E&) { return true; } catch (...) { return false; }
  return false;
}
void run();  // defined by each harness
