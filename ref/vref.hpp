// Independent reference for the documented generator: dSFMT-19937 (Saito & Matsumoto) and the
// Marsaglia-Bray normal sampler (Ripley, p. 84).  Deliberately naive; shares no code with /repo.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <vector>

namespace vref {

class Rng {
  std::vector<uint64_t> st;   // 2*191 words + 2 words of the "lung"
  int pos = 382;
  static const int N = 191, POS = 117;

  void regenerate() {
    uint64_t L0 = st[382], L1 = st[383];
    for (int i = 0; i < N; i++) {
      int b = (i + POS) % N;
      uint64_t a0 = st[2 * i], a1 = st[2 * i + 1];
      uint64_t n0 = (a0 << 19) ^ ((L1 >> 32) | (L1 << 32)) ^ st[2 * b];
      uint64_t n1 = (a1 << 19) ^ ((L0 >> 32) | (L0 << 32)) ^ st[2 * b + 1];
      st[2 * i]     = (n0 >> 12) ^ (n0 & 0x000ffafffffffb3fULL) ^ a0;
      st[2 * i + 1] = (n1 >> 12) ^ (n1 & 0x000ffdfffc90fffdULL) ^ a1;
      L0 = n0;
      L1 = n1;
    }
    st[382] = L0;
    st[383] = L1;
  }

public:
  uint64_t drawn = 0;
  Rng() : st(384) {}
  explicit Rng(uint32_t s) : st(384) { seed(s); }

  void seed(uint32_t s) {
    std::vector<uint32_t> w(768);
    w[0] = s;
    for (uint32_t i = 1; i < 768; i++) w[i] = 1812433253u * (w[i - 1] ^ (w[i - 1] >> 30)) + i;
    for (int i = 0; i < 384; i++) st[i] = (uint64_t(w[2 * i + 1]) << 32) | w[2 * i];
    for (int i = 0; i < 382; i++) st[i] = (st[i] & 0x000FFFFFFFFFFFFFULL) | 0x3FF0000000000000ULL;
    uint64_t p = ((st[382] ^ 0x90014964b32f4329ULL) & 0x3d84e1ac0dc82880ULL) ^ ((st[383] ^ 0x3b8d12ac548a7c7aULL) & 1ULL);
    if (__builtin_parityll(p) != 1) st[383] ^= 1;
    pos = 382;
    drawn = 0;
  }
  uint64_t raw() {
    if (pos >= 382) { regenerate(); pos = 0; }
    drawn++;
    return st[pos++];
  }
  uint32_t u32() { return uint32_t(raw()); }
  double c1o2() { uint64_t r = raw(); double d; memcpy(&d, &r, 8); return d; }
  double unif() { return c1o2() - 1.0; }
  double unif_open() { uint64_t r = raw() | 1; double d; memcpy(&d, &r, 8); return d - 1.0; }
  static double g(double x) {
    const double a = 17.49731196, b = 2.36785163, c = 2.15787544, ax = std::fabs(x);
    double r = a * std::exp(-x * x / 2.0);
    if (ax < 1.0) r -= 2.0 * b * (3.0 - x * x) + c * (1.5 - ax);
    else if (ax < 1.5) r -= b * (3.0 - ax) * (3.0 - ax) + c * (1.5 - ax);
    else r -= b * (3.0 - ax) * (3.0 - ax);
    return r;
  }
  double norm() {
    double u = unif();
    if (u < 0.8638) { double a = unif(), b = unif(), c = unif(); return 2.0 * (a + b + c) - 3.0; }
    if (u < 0.9745) { double a = unif(), b = unif(); return 1.5 * (a + b - 1.0); }
    if (u < 0.9973002039) {
      for (;;) { double a = unif(), b = unif(), x = 6.0 * a - 3.0; if (!(0.358 * b > g(x))) return x; }
    }
    for (;;) {
      double v1, v2, w;
      do { v1 = 2.0 * unif() - 1.0; v2 = 2.0 * unif() - 1.0; w = v1 * v1 + v2 * v2; } while (w >= 1.0);
      double c = std::sqrt((9.0 - 2.0 * std::log(w)) / w), s = c * v1, t = c * v2;
      if (std::fabs(s) > 3.0) return s;
      if (std::fabs(t) > 3.0) return t;
    }
  }
  uint64_t fingerprint() const {
    uint64_t h = pos;
    for (uint64_t v : st) { h ^= v; h *= 0x100000001b3ULL; h ^= h >> 29; }
    return h;
  }
};

} // namespace vref
