// Rank of random bit vectors over GF(2): joint independence of drawn values.
#ifndef VERIF_GF2_H_
#define VERIF_GF2_H_
#include <cstdint>
#include <string>
#include <vector>
namespace gf2 {
typedef std::vector<uint64_t> Row;
struct Bits {
  std::vector<uint64_t> w;
  size_t n = 0;
  void Push(uint64_t v, int bits) {
    for (int i = 0; i < bits; i++, n++) {
      if (n % 64 == 0) w.push_back(0);
      w[n / 64] |= ((v >> i) & 1) << (n % 64);
    }
  }
  void PushBytes(const std::string& s) { for (unsigned char c : s) Push(c, 8); }
};
// Dimension of the affine span of the rows.  For n > d + 64 independent uniform
// rows of d bits it is d except with probability below 2^-63.
inline int AffineRank(std::vector<Row> m) {
  if (m.size() < 2) return 0;
  Row base = m.back();
  m.pop_back();
  for (auto& r : m) for (size_t i = 0; i < r.size(); i++) r[i] ^= base[i];
  int rank = 0;
  size_t words = base.size();
  for (size_t bit = 0; bit < words * 64 && rank < (int)m.size(); bit++) {
    size_t wi = bit / 64, sh = bit % 64, p = rank;
    while (p < m.size() && !((m[p][wi] >> sh) & 1)) p++;
    if (p == m.size()) continue;
    std::swap(m[p], m[rank]);
    for (size_t r = rank + 1; r < m.size(); r++)
      if ((m[r][wi] >> sh) & 1) for (size_t i = wi; i < words; i++) m[r][i] ^= m[rank][i];
    rank++;
  }
  return rank;
}
}  // namespace gf2
#endif
