#include "dpf_types.h"

#include <cmath>
#include <functional>

namespace vt {
void AddTypes0(std::vector<std::pair<int, TypeOps>>*);
void AddTypes1(std::vector<std::pair<int, TypeOps>>*);
void AddTypes2(std::vector<std::pair<int, TypeOps>>*);
void AddTypes3(std::vector<std::pair<int, TypeOps>>*);

const std::vector<TypeOps>& Types() {
  static const std::vector<TypeOps>* v = [] {
    std::vector<std::pair<int, TypeOps>> all;
    AddTypes0(&all);
    AddTypes1(&all);
    AddTypes2(&all);
    AddTypes3(&all);
    auto* r = new std::vector<TypeOps>(all.size());
    for (auto& p : all) (*r)[p.first] = p.second;
    return r;
  }();
  return *v;
}

double Sigma(int n, u128 modulus) {
  return 131 - (std::log2((double)modulus) + std::log2((double)n) + std::log2((double)n + 1));
}

// The strictest requirement: tuples divide the budget among their elements.
int MaxLogDomain(const TypeOps& t) {
  std::function<double(const Shape&, double)> slack = [&](const Shape& s, double extra) -> double {
    if (!s.tuple) return s.leaf.kind == kMod ? Sigma(1, s.leaf.modulus) - extra : 1000;
    int mods = 0, others = 0;
    u128 n = 0;
    for (auto& k : s.kids) {
      if (!k.tuple && k.leaf.kind == kMod) { mods++; n = k.leaf.modulus; } else others++;
    }
    double best = mods ? Sigma(mods, n) - extra : 1000;
    for (auto& k : s.kids)
      if (k.tuple || k.leaf.kind != kMod) best = std::min(best, slack(k, extra + std::log2((double)others)));
    return best;
  };
  double sl = slack(t.shape, 0) - 41;
  if (sl > 128) return 128;
  return sl < 0 ? 0 : (int)sl;
}
}  // namespace vt
