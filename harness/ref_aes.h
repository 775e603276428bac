// Independent AES-128 (FIPS 197), for reference models.
#ifndef VERIF_REF_AES_H_
#define VERIF_REF_AES_H_
#include <cstdint>
#include <cstring>
#include "pbt.h"
namespace ref {
using pbt::u128;
struct Tables {
  uint8_t sbox[256];
  uint32_t te[4][256];
  Tables() {
    uint8_t p = 1, q = 1;
    do {
      p = p ^ (uint8_t)(p << 1) ^ ((p & 0x80) ? 0x1b : 0);
      q ^= q << 1; q ^= q << 2; q ^= q << 4;
      if (q & 0x80) q ^= 0x09;
      auto rot = [](uint8_t x, int n) -> uint8_t { return (uint8_t)((x << n) | (x >> (8 - n))); };
      sbox[p] = (uint8_t)(q ^ rot(q, 1) ^ rot(q, 2) ^ rot(q, 3) ^ rot(q, 4)) ^ 0x63;
    } while (p != 1);
    sbox[0] = 0x63;
    for (int i = 0; i < 256; i++) {
      uint8_t s = sbox[i], s2 = (uint8_t)((s << 1) ^ ((s & 0x80) ? 0x1b : 0)), s3 = s2 ^ s;
      uint8_t col[4] = {s2, s, s, s3};
      for (int k = 0; k < 4; k++) {
        uint8_t c[4];
        for (int j = 0; j < 4; j++) c[(j + k) % 4] = col[j];
        memcpy(&te[k][i], c, 4);
      }
    }
  }
};
inline const Tables& T() { static const Tables t; return t; }

class Aes128 {
 public:
  explicit Aes128(const uint8_t key[16]) {
    memcpy(rk_, key, 16);
    uint8_t rc = 1;
    for (int i = 16; i < 176; i += 4) {
      uint8_t t[4];
      memcpy(t, rk_ + i - 4, 4);
      if (i % 16 == 0) {
        uint8_t x = t[0];
        t[0] = T().sbox[t[1]] ^ rc; t[1] = T().sbox[t[2]]; t[2] = T().sbox[t[3]]; t[3] = T().sbox[x];
        rc = (uint8_t)((rc << 1) ^ ((rc & 0x80) ? 0x1b : 0));
      }
      for (int j = 0; j < 4; j++) rk_[i + j] = rk_[i - 16 + j] ^ t[j];
    }
  }
  // Key given as a little-endian 128-bit integer.
  static Aes128 FromInt(u128 k) { uint8_t b[16]; memcpy(b, &k, 16); return Aes128(b); }
  void Encrypt(const uint8_t in[16], uint8_t out[16]) const {
    uint8_t s[16];
    for (int i = 0; i < 16; i++) s[i] = in[i] ^ rk_[i];
    for (int r = 1; r < 10; r++) {
      uint32_t c[4];
      for (int j = 0; j < 4; j++) {
        c[j] = T().te[0][s[4 * j]] ^ T().te[1][s[(4 * j + 5) % 16]] ^ T().te[2][s[(4 * j + 10) % 16]] ^ T().te[3][s[(4 * j + 15) % 16]];
        uint32_t k;
        memcpy(&k, rk_ + 16 * r + 4 * j, 4);
        c[j] ^= k;
      }
      memcpy(s, c, 16);
    }
    uint8_t o[16];
    for (int j = 0; j < 4; j++)
      for (int i = 0; i < 4; i++) o[4 * j + i] = T().sbox[s[(4 * j + 5 * i) % 16]] ^ rk_[160 + 4 * j + i];
    memcpy(out, o, 16);
  }
  u128 Encrypt(u128 x) const { uint8_t b[16]; memcpy(b, &x, 16); Encrypt(b, b); u128 r; memcpy(&r, b, 16); return r; }
 private:
  uint8_t rk_[176];
};

// FIPS-197 appendix C.1; every harness that uses the reference runs it.
inline bool AesSelfTest() {
  uint8_t k[16], p[16], o[16];
  for (int i = 0; i < 16; i++) { k[i] = i; p[i] = i * 17; }
  Aes128(k).Encrypt(p, o);
  const uint8_t want[16] = {0x69, 0xc4, 0xe0, 0xd8, 0x6a, 0x7b, 0x04, 0x30, 0xd8, 0xcd, 0xb7, 0x80, 0x70, 0xb4, 0xc5, 0x5a};
  return memcmp(o, want, 16) == 0;
}

// Circular-correlation-robust hash: pi(sigma(x)) ^ sigma(x), sigma(hi,lo) = (hi^lo, hi).
inline u128 Sigma(u128 x) {
  uint64_t hi = (uint64_t)(x >> 64), lo = (uint64_t)x;
  return ((u128)(hi ^ lo) << 64) | hi;
}
inline u128 Mmo(const Aes128& k, u128 x) { u128 s = Sigma(x); return k.Encrypt(s) ^ s; }
}  // namespace ref
#endif
