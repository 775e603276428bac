// Independent SHA-256 (FIPS 180-4), for reference models.
#ifndef VERIF_REF_SHA256_H_
#define VERIF_REF_SHA256_H_
#include <array>
#include <cmath>
#include <cstdint>
#include <string>
namespace ref {
inline std::array<uint8_t, 32> Sha256(const std::string& in) {
  // Round constants: fractional parts of cube roots of the first 64 primes,
  // computed with integers (floor of cbrt(p) * 2^32, mod 2^32).
  static const std::array<uint32_t, 64> k = [] {
    std::array<uint32_t, 64> r{};
    int n = 0;
    for (int p = 2; n < 64; p++) {
      bool prime = true;
      for (int d = 2; d * d <= p; d++) prime &= p % d != 0;
      if (!prime) continue;
      unsigned __int128 lo = 0, hi = (unsigned __int128)8 << 32;  // root * 2^32 < 8 * 2^32
      while (hi - lo > 1) {
        unsigned __int128 mid = (lo + hi) / 2;  // mid^3 <= p * 2^96 ?
        unsigned __int128 sq = mid * mid;       // < 2^70
        // compare sq * mid with p << 96 without overflow: split sq.
        unsigned __int128 a = (sq >> 40) * mid, b = (sq & (((unsigned __int128)1 << 40) - 1)) * mid;
        unsigned __int128 top = a + (b >> 40);  // sq*mid >> 40
        if (top < ((unsigned __int128)p << 56)) lo = mid; else hi = mid;
      }
      r[n++] = (uint32_t)lo;
    }
    return r;
  }();
  uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
  std::string m = in;
  uint64_t bits = (uint64_t)in.size() * 8;
  m += '\x80';
  while (m.size() % 64 != 56) m += '\0';
  for (int i = 7; i >= 0; i--) m += (char)(bits >> (8 * i));
  auto rot = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[64];
    for (int i = 0; i < 16; i++)
      w[i] = (uint32_t)(uint8_t)m[o + 4 * i] << 24 | (uint32_t)(uint8_t)m[o + 4 * i + 1] << 16 | (uint32_t)(uint8_t)m[o + 4 * i + 2] << 8 | (uint8_t)m[o + 4 * i + 3];
    for (int i = 16; i < 64; i++)
      w[i] = w[i - 16] + (rot(w[i - 15], 7) ^ rot(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 7] + (rot(w[i - 2], 17) ^ rot(w[i - 2], 19) ^ (w[i - 2] >> 10));
    uint32_t v[8];
    for (int i = 0; i < 8; i++) v[i] = h[i];
    for (int i = 0; i < 64; i++) {
      uint32_t t1 = v[7] + (rot(v[4], 6) ^ rot(v[4], 11) ^ rot(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[i] + w[i];
      uint32_t t2 = (rot(v[0], 2) ^ rot(v[0], 13) ^ rot(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
      for (int j = 7; j > 0; j--) v[j] = v[j - 1];
      v[4] += t1;
      v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += v[i];
  }
  std::array<uint8_t, 32> out;
  for (int i = 0; i < 32; i++) out[i] = (uint8_t)(h[i / 4] >> (24 - 8 * (i % 4)));
  return out;
}
inline bool ShaSelfTest() {
  auto h = Sha256("abc");
  const uint8_t want[4] = {0xba, 0x78, 0x16, 0xbf}, tail[4] = {0xf2, 0x00, 0x15, 0xad};
  for (int i = 0; i < 4; i++) if (h[i] != want[i] || h[28 + i] != tail[i]) return false;
  return true;
}
// A digest read as a little-endian number, modulo m.
inline int DigestMod(const std::array<uint8_t, 32>& d, int m) {
  uint64_t r = 0;
  for (int i = 31; i >= 0; i--) r = (r * 256 + d[i]) % (uint64_t)m;
  return (int)r;
}
}  // namespace ref
#endif
