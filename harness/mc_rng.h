// Control of SMASH's random number engine without touching SMASH: the state of
// the Mersenne twister is loaded such that its next 312 outputs are exactly
// the words chosen by the explorer.
#pragma once
#include <cstdint>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>

#include "smash/random.h"

namespace mc {
constexpr size_t kRngWords = 312;

inline uint64_t untemper(uint64_t z) {
  z ^= z >> 43;
  z ^= (z << 37) & 0xFFF7EEE000000000ull;
  uint64_t t = z;  // invert z ^= (z << 17) & 0x71D67FFFEDA60000
  for (int i = 0; i < 4; i++)
    t = z ^ ((t << 17) & 0x71D67FFFEDA60000ull);
  z = t;
  t = z;  // invert z ^= (z >> 29) & 0x5555555555555555
  for (int i = 0; i < 3; i++)
    t = z ^ ((t >> 29) & 0x5555555555555555ull);
  return t;
}

/// the 64-bit engine output that std::generate_canonical turns into u
inline uint64_t word(double u) {
  if (u <= 0.)
    return 0;
  const long double w = static_cast<long double>(u) * 18446744073709551616.0L;
  if (w >= 18446744073709551615.0L)
    return ~0ull;
  return static_cast<uint64_t>(w);
}
constexpr double kMaxU = 2.;  // word() maps it to the largest engine output

/// Load answers; the sequence is repeated cyclically to fill the state.
inline void rng_script(const std::vector<uint64_t> &words,
                       const std::vector<uint64_t> &then = {}) {
  std::string s;
  s.reserve(kRngWords * 21);
  for (size_t i = 0; i < kRngWords; i++) {
    uint64_t w;
    if (i < words.size())
      w = words[i];
    else if (!then.empty())
      w = then[(i - words.size()) % then.size()];
    else
      w = words[i % words.size()];
    s += std::to_string(untemper(w));
    s += ' ';
  }
  s += "0";
  std::istringstream in(s);
  in >> smash::random::engine;
}
inline void rng_script_u(const std::vector<double> &us,
                         const std::vector<double> &then = {}) {
  std::vector<uint64_t> w, t;
  for (double u : us)
    w.push_back(word(u));
  for (double u : then)
    t.push_back(word(u));
  rng_script(w, t);
}
/// deterministic, well spread filler answers used after the enumerated ones
inline std::vector<double> filler(uint64_t salt = 1, size_t n = 61) {
  std::vector<double> v;
  uint64_t x = 0x9E3779B97F4A7C15ull * (salt + 1);
  for (size_t i = 0; i < n; i++) {
    x ^= x << 13, x ^= x >> 7, x ^= x << 17;
    v.push_back(static_cast<double>(x >> 11) / 9007199254740992.0);
  }
  return v;
}
/// number of engine outputs consumed since rng_script (mod 312)
inline size_t rng_used() {
  std::ostringstream o;
  o << smash::random::engine;
  const std::string s = o.str();
  return std::stoul(s.substr(s.rfind(' ') + 1));
}
inline std::string rng_state() {
  std::ostringstream o;
  o << smash::random::engine;
  return o.str();
}
/// Same as rng_script_u(us, filler(1)), but fast: the engine of libstdc++ is an
/// array of words and the position of the next one.
inline uint64_t &rng_first() {
  static uint64_t w = 0;
  return w;
}
inline void rng_fast(const double *us, size_t n) {
  static_assert(sizeof(smash::random::Engine) == (kRngWords + 1) * 8, "layout");
  static uint64_t base[kRngWords + 1];
  static bool ready = false;
  if (!ready) {
    rng_script_u({}, filler(1));
    memcpy(base, &smash::random::engine, sizeof base);
    ready = true;
  }
  memcpy(static_cast<void *>(&smash::random::engine), base, sizeof base);
  uint64_t w[kRngWords];
  for (size_t i = 0; i < n && i < kRngWords; i++)
    w[i] = untemper(word(us[i]));
  memcpy(static_cast<void *>(&smash::random::engine), w, n * 8);
  memcpy(&rng_first(), static_cast<void *>(&smash::random::engine), 8);
}
/// number of outputs consumed since rng_fast, kRngWords if they were used up
inline size_t rng_used_fast() {
  uint64_t first, pos;
  memcpy(&first, static_cast<void *>(&smash::random::engine), 8);
  memcpy(&pos, reinterpret_cast<char *>(&smash::random::engine) + kRngWords * 8, 8);
  return first == rng_first() ? pos : kRngWords;
}
}  // namespace mc
