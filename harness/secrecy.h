// Statistical judgement of what many independently made messages show: joint
// independence of their bits over GF(2), balance, correlation with secrets.
#ifndef VERIF_SECRECY_H_
#define VERIF_SECRECY_H_
#include <algorithm>
#include <cmath>
#include <set>
#include <string>
#include <vector>
#include "gf2.h"
#include "pbt.h"
namespace secrecy {
using pbt::u128;
// Numbers of a key: bits that are uniform for an honest key, and the others
// (elements of Z_N) for correlation only.
struct Numbers {
  gf2::Bits uniform, other;
  std::vector<u128> blocks;  // seeds
};
inline void PushU(gf2::Bits* b, u128 x, int bits) {
  b->Push((uint64_t)x, std::min(bits, 64));
  if (bits > 64) b->Push((uint64_t)(x >> 64), bits - 64);
}
struct Table {
  std::vector<gf2::Row> rows;     // uniform bits
  std::vector<gf2::Row> others, secrets;
  size_t nu = 0, no = 0, ns = 0;
  void Add(const Numbers& n, const gf2::Bits& secret) {
    REQUIRE(rows.empty() || (n.uniform.n == nu && n.other.n == no)) << "keys of the same parameters hold different amounts of data";
    nu = n.uniform.n; no = n.other.n; ns = secret.n;
    rows.push_back(n.uniform.w);
    others.push_back(n.other.w);
    secrets.push_back(secret.w);
  }
};
inline bool Bit(const gf2::Row& r, size_t i) { return (r[i / 64] >> (i % 64)) & 1; }

// All uniform bits (and the secrets, where they vary at random) are jointly
// linearly independent. Needs nu + ns + 64 rows.
inline void CheckRank(const Table& t, size_t uniform_secret_bits, const std::string& what) {
  std::vector<gf2::Row> m;
  for (size_t i = 0; i < t.rows.size(); i++) {
    gf2::Bits b;
    for (size_t j = 0; j < t.nu; j += 64) b.Push(t.rows[i][j / 64], (int)std::min<size_t>(64, t.nu - j));
    for (size_t j = 0; j < uniform_secret_bits; j++) b.Push(Bit(t.secrets[i], j), 1);
    m.push_back(b.w);
  }
  int d = (int)(t.nu + uniform_secret_bits);
  int r = gf2::AffineRank(m);
  REQUIRE(r == d) << what << ": " << d << " bits (of which " << uniform_secret_bits << " secret) have rank " << r << " over " << t.rows.size() << " generations";
}
// No bit of key data is correlated with a secret bit, nor (if balanced is set)
// fixed.
inline void CheckCorrelation(const Table& t, const std::string& what) {
  size_t n = t.rows.size(), words = (n + 63) / 64;
  auto columns = [&](const std::vector<gf2::Row>& rows, size_t bits) {
    std::vector<gf2::Row> c(bits, gf2::Row(words, 0));
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < bits; j++) if (Bit(rows[i], j)) c[j][i / 64] |= 1ull << (i % 64);
    return c;
  };
  auto count = [&](const gf2::Row& a) { size_t k = 0; for (uint64_t w : a) k += __builtin_popcountll(w); return k; };
  auto sec = columns(t.secrets, t.ns);
  for (int part = 0; part < 2; part++) {
    auto col = columns(part ? t.others : t.rows, part ? t.no : t.nu);
    for (size_t j = 0; j < col.size(); j++) {
      double pj = (double)count(col[j]) / n;
      // Eight standard deviations: 1e-15 per bit.
      if (part == 0) REQUIRE(std::fabs(pj - 0.5) * 2 * std::sqrt((double)n) < 8) << what << ": key bit " << j << " of " << t.nu << " is 1 in " << pj * 100 << "% of " << n << " generations";
      if (pj == 0 || pj == 1) continue;
      for (size_t k = 0; k < sec.size(); k++) {
        double pk = (double)count(sec[k]) / n;
        if (pk == 0 || pk == 1) continue;
        gf2::Row both(words);
        for (size_t w = 0; w < words; w++) both[w] = col[j][w] & sec[k][w];
        double cov = (double)count(both) / n - pj * pk, sd = std::sqrt(pj * (1 - pj) * pk * (1 - pk) / n);
        // Rare values make the normal bound too tight; skip near-constant bits.
        if (sd * n < 6) continue;
        REQUIRE(std::fabs(cov) < 8 * sd) << what << ": " << (part ? "Z_N " : "") << "key bit " << j << " and secret bit " << k << " are correlated (" << cov / sd << " standard deviations over " << n << " generations)";
      }
    }
  }
}
inline void CheckFresh(const std::vector<std::vector<u128>>& per_key, const std::string& what) {
  std::set<u128> seen;
  for (auto& k : per_key) for (u128 b : k) REQUIRE(seen.insert(b).second) << what << ": a 128-bit block occurs twice in independent keys: " << pbt::Str128(b);
}

}  // namespace secrecy
#endif
