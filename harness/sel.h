// Packed selection vectors and the byte-wise XOR they select.
#ifndef VERIF_SEL_H_
#define VERIF_SEL_H_
#include <string>
#include <vector>
#include "absl/numeric/int128.h"
#include "dpf/xor_wrapper.h"
#include "pbt.h"
namespace sel {
typedef distributed_point_functions::XorWrapper<absl::uint128> Block;
typedef std::vector<Block> Selection;
inline Block Make(pbt::u128 x) { return Block(absl::MakeUint128((uint64_t)(x >> 64), (uint64_t)x)); }
inline bool Bit(const Selection& b, size_t i) { return (absl::Uint128Low64(b[i / 128].value() >> (int)(i % 128)) & 1) != 0; }
inline Selection One(size_t n, size_t i) {
  Selection b((n + 127) / 128, Make(0));
  b[i / 128] = Make((pbt::u128)1 << (i % 128));
  return b;
}
inline Selection Random(pbt::Src& s, size_t n) {
  Selection b;
  int mode = (int)s.Draw(3);
  pbt::Rng r{s.Draw(~0ull)};
  for (size_t i = 0; i < (n + 127) / 128; i++) {
    pbt::u128 x = ((pbt::u128)r.Next() << 64) | r.Next();
    if (mode == 0) x = ~(pbt::u128)0;
    if (mode == 1) x &= (((pbt::u128)r.Next() << 64) | r.Next()) & (((pbt::u128)r.Next() << 64) | r.Next());
    b.push_back(Make(x));
  }
  return b;
}
inline std::string Xor(const std::vector<std::string>& values, const Selection& b) {
  size_t max = 0;
  for (auto& v : values) max = std::max(max, v.size());
  std::string r(max, '\0');
  for (size_t i = 0; i < values.size(); i++)
    if (Bit(b, i)) for (size_t j = 0; j < values[i].size(); j++) r[j] ^= values[i][j];
  return r;
}
}  // namespace sel
#endif
