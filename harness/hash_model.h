// Hash functions for the hash-table harnesses, with a model of each.
#ifndef VERIF_HASH_MODEL_H_
#define VERIF_HASH_MODEL_H_
#include <memory>
#include "absl/strings/string_view.h"
#include "pbt.h"
#include "pir/hashing/farm_hash_family.h"
#include "pir/hashing/hash_family.h"
#include "pir/hashing/sha256_hash_family.h"
namespace hm {
using distributed_point_functions::HashFunction;
struct Fn {
  int kind;  // 0 mixing, 1 limited range, 2 constant, 3 by length, 4 sha, 5 farm
  uint64_t salt;
  int operator()(absl::string_view in, int bound) const {
    switch (kind) {
      case 0: case 1: {
        uint64_t h = salt;
        for (char c : in) h = pbt::Mix(h ^ (unsigned char)c);
        h = pbt::Mix(h + in.size());
        int b = kind == 1 ? std::min<int>(bound, 1 + (int)(salt % 4)) : bound;
        return (int)(h % (uint64_t)b);
      }
      case 2: return (int)(salt % (uint64_t)bound);
      case 3: return (int)((in.size() + salt) % (uint64_t)bound);
      case 4: return distributed_point_functions::SHA256HashFunction(std::to_string(salt))(in, bound);
      default: return distributed_point_functions::FarmHashFunction(std::to_string(salt))(in, bound);
    }
  }
};
// Draws n functions (some possibly equal), with the table's copies in `out`.
inline std::vector<Fn> Draw(pbt::Src& s, int n, std::vector<HashFunction>* out) {
  std::vector<Fn> m;
  int style = (int)s.Draw(4);
  for (int i = 0; i < n; i++) {
    Fn f;
    if (i > 0 && s.Chance(1, 6)) f = m[s.Draw(i - 1)];
    else f = {style <= 1 ? 0 : style == 2 ? (int)s.Draw(5) : style == 3 ? 4 : 5, s.Draw(1000)};
    m.push_back(f);
    out->push_back(f);
  }
  return m;
}
inline std::string Show(const std::vector<Fn>& m) {
  std::string r;
  for (auto& f : m) r += "f" + std::to_string(f.kind) + "/" + std::to_string(f.salt) + " ";
  return r;
}
}  // namespace hm
#endif
