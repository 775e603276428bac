// Reference model of the incremental DPF (paper figure 11, with the library's
// documented hash, seed and control-bit layout and value encoding), written
// step by step from the documentation.
#ifndef VERIF_REF_DPF_H_
#define VERIF_REF_DPF_H_
#include "dpf_gen.h"
#include "ref_aes.h"

namespace ref {
using namespace vt;

struct Hashes {
  // First 16 bytes of sha256("DistributedPointFunction::kPrgKeyLeft\n") etc.
  Aes128 left = Aes128::FromInt(((u128)0x5be037ccf6a03de5ull << 64) | 0x935f08d0a5b6a2fdull);
  Aes128 right = Aes128::FromInt(((u128)0xef94b6aedebb026cull << 64) | 0xe2ea1fe0f66f4d0bull);
  Aes128 value = Aes128::FromInt(((u128)0x05a5d1588c5423e3ull << 64) | 0x46a31101b21d1c98ull);
};
inline const Hashes& H() { static const Hashes h; return h; }

struct Node { u128 seed; bool t; };
struct Correction {
  u128 seed = 0;
  bool c[2] = {false, false};
  std::vector<Leaves> value;  // for the hierarchy level of the previous tree level
};
struct Key {
  bool party = false;
  u128 seed = 0;
  std::vector<Correction> cw;   // for tree levels 1, 2, ...
  std::vector<Leaves> last;     // value correction of the last hierarchy level
};

struct Dpf {
  const std::vector<const TypeOps*>& types;
  const std::vector<int>& logs;
  std::vector<int> tree;

  Dpf(const std::vector<const TypeOps*>& t, const std::vector<int>& l) : types(t), logs(l) {
    int next = 0;
    for (size_t i = 0; i < t.size(); i++) {
      int pack = 0, bits = t[i]->bits;   // bits is 0 for types that are not packed
      if (bits) { int p2 = 1; while (p2 < bits) p2 *= 2; while ((p2 << (pack + 1)) <= 128) pack++; }
      tree.push_back(std::max(next, l[i] - pack));
      next = tree.back() + 1;
    }
  }
  int PerBlock(int level) const { return vt::PerBlock(*types[level]); }
  int Shift(int level) const { return logs[level] - tree[level]; }

  // Elements encoded by the value hash of a seed.
  std::vector<Leaves> Values(int level, u128 seed) const {
    size_t bytes = BytesOf(*types[level]);
    std::string s;
    for (int j = 0; s.size() < bytes; j++) {
      u128 b = Mmo(H().value, seed + j);
      s.append(reinterpret_cast<const char*>(&b), 16);
    }
    return ConvertBytes(*types[level], s);
  }

  static Node Child(const Node& n, const Correction& cw, bool right) {
    u128 e = Mmo(right ? H().right : H().left, n.seed);
    Node r{e & ~(u128)1, (bool)(e & 1)};
    if (n.t) { r.seed ^= cw.seed; r.t ^= cw.c[right]; }
    return r;
  }
  Node Walk(const Key& k, u128 index, int depth) const {
    Node n{k.seed, k.party};
    for (int l = 0; l < depth; l++) {
      int sh = depth - l - 1;
      n = Child(n, k.cw[l], sh >= 128 ? false : (index >> sh) & 1);
    }
    return n;
  }
  const std::vector<Leaves>& ValueCorrection(const Key& k, int level) const {
    return level + 1 == (int)types.size() ? k.last : k.cw[tree[level]].value;
  }
  Leaves At(const Key& k, int level, u128 x) const {
    Node n = Walk(k, Shift(level) >= 128 ? 0 : x >> Shift(level), tree[level]);
    int e = (int)(x & (((u128)1 << Shift(level)) - 1));
    Leaves v = Values(level, n.seed)[e];
    const auto& leaves = types[level]->leaves;
    if (n.t) v = Add(leaves, v, ValueCorrection(k, level)[e]);
    if (k.party) for (size_t i = 0; i < v.size(); i++) v[i] = NegLeaf(leaves[i], v[i]);
    return v;
  }

  std::vector<Leaves> MakeValueCorrection(int level, const Node n[2], u128 x, const Leaves& beta) const {
    const auto& leaves = types[level]->leaves;
    std::vector<Leaves> a = Values(level, n[0].seed), b = Values(level, n[1].seed);
    int e = (int)(x & (((u128)1 << Shift(level)) - 1));
    for (size_t i = 0; i < a.size(); i++)
      for (size_t j = 0; j < leaves.size(); j++) {
        u128 d = AddLeaf(leaves[j], b[i][j], NegLeaf(leaves[j], a[i][j]));
        if ((int)i == e) d = AddLeaf(leaves[j], d, beta[j]);
        b[i][j] = n[1].t ? NegLeaf(leaves[j], d) : d;
      }
    return b;
  }
  // Both keys of f_{alpha,beta} from given root seeds.
  void Gen(u128 alpha, const std::vector<Leaves>& beta, u128 s0, u128 s1, Key out[2]) const {
    Node n[2] = {{s0, false}, {s1, true}};
    auto prefix = [&](int level) { int sh = logs.back() - logs[level]; return sh >= 128 ? (u128)0 : alpha >> sh; };
    Key k;
    int level = 0;
    for (int l = 1; l <= tree.back(); l++) {
      Correction cw;
      if (tree[level] == l - 1) { cw.value = MakeValueCorrection(level, n, prefix(level), beta[level]); level++; }
      int sh = logs.back() - l;
      bool bit = sh >= 128 ? false : (alpha >> sh) & 1;
      u128 e[2][2];
      for (int b = 0; b < 2; b++)
        for (int p = 0; p < 2; p++) e[b][p] = Mmo(b ? H().right : H().left, n[p].seed);
      cw.seed = (e[!bit][0] ^ e[!bit][1]) & ~(u128)1;
      cw.c[0] = ((e[0][0] ^ e[0][1]) & 1) ^ bit ^ 1;
      cw.c[1] = ((e[1][0] ^ e[1][1]) & 1) ^ bit;
      for (int p = 0; p < 2; p++) n[p] = Child(n[p], cw, bit);
      k.cw.push_back(cw);
    }
    int last = (int)types.size() - 1;
    k.last = MakeValueCorrection(last, n, alpha, beta[last]);
    for (int p = 0; p < 2; p++) { out[p] = k; out[p].party = p; out[p].seed = p ? s1 : s0; }
  }

  static void SetBlock(D::Block* b, u128 x) { b->set_high((uint64_t)(x >> 64)); b->set_low((uint64_t)x); }
  static u128 GetBlock(const D::Block& b) { return ((u128)b.high() << 64) | b.low(); }
  DpfKey Proto(const Key& k) const {
    DpfKey r;
    r.set_party(k.party);
    SetBlock(r.mutable_seed(), k.seed);
    int level = 0;
    for (size_t l = 0; l < k.cw.size(); l++) {
      auto* c = r.add_correction_words();
      SetBlock(c->mutable_seed(), k.cw[l].seed);
      c->set_control_left(k.cw[l].c[0]);
      c->set_control_right(k.cw[l].c[1]);
      while (level + 1 < (int)types.size() && tree[level] < (int)l) level++;
      for (auto& v : k.cw[l].value) *c->add_value_correction() = ValueProto(types[level]->shape, v);
    }
    for (auto& v : k.last) *r.add_last_level_value_correction() = ValueProto(types.back()->shape, v);
    return r;
  }
  // Any well-formed key.
  Key Arbitrary(pbt::Src& s) const {
    Key k;
    k.party = s.Bool();
    k.seed = s.Chance(1, 8) ? s.Edge128(~(u128)0) : s.Uni128();
    uint64_t salt = s.Draw(~0ull);
    int mode = (int)s.Draw(5);  // all control bits 0, all 1, or mixed
    pbt::Rng r{salt};
    auto values = [&](int level) {
      std::vector<Leaves> v;
      for (int e = 0; e < PerBlock(level); e++) {
        Leaves x;
        for (auto& l : types[level]->leaves) {
          u128 m = MaxOf(l), y = ((u128)r.Next() << 64) | r.Next();
          x.push_back(salt == 0 ? 0 : r.Next() % 8 == 0 ? m : l.kind == kMod ? y % l.modulus : y & m);
        }
        v.push_back(x);
      }
      return v;
    };
    int level = 0;
    for (int l = 1; l <= tree.back(); l++) {
      Correction c;
      c.seed = salt == 0 ? 0 : (((u128)r.Next() << 64) | r.Next()) & ~(u128)1;
      for (int i = 0; i < 2; i++) c.c[i] = mode == 0 ? false : mode == 1 ? true : r.Next() & 1;
      if (tree[level] == l - 1) { c.value = values(level); level++; }
      k.cw.push_back(c);
    }
    k.last = values((int)types.size() - 1);
    return k;
  }
};
inline std::string Show(const Key& k) {
  return "party " + std::to_string(k.party) + " seed " + pbt::Str128(k.seed) + " " + std::to_string(k.cw.size()) + " corrections";
}
}  // namespace ref
#endif
