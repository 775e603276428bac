// C02: incremental DPFs: along any history of evaluation calls on a context,
// the shares recombine to the prefix tree of alpha, and calls that the
// documentation excludes are refused.
// LIBS: core
// SRCS: dpf_types.cc dpf_types_0.cc dpf_types_1.cc dpf_types_2.cc dpf_types_3.cc
#include <algorithm>
#include <set>

#include "dpf_gen.h"
#include "pbt.h"
using namespace vt;
using pbt::Src;

const char* const pbt::kRule =
    "A case draws 1-6 hierarchy levels (log domain sizes up to 128, an output type per level, security parameters), "
    "alpha, beta and keys, then a history of up to 9 calls (evaluate-until, evaluate-next, evaluate-at) on one context "
    "per party, with prefixes drawn from those the model allows or from anywhere, in any order and with duplicates, "
    "and with contexts serialised, copied or moved to another instance between calls. Each call must agree with a "
    "model of contexts on acceptance, and accepted results must recombine to beta at prefixes of alpha and to zero "
    "elsewhere. Non-trivial: at least two accepted calls that used prefixes or points, and alpha's path was followed.";
const std::vector<std::string> pbt::kAssumptions = {
    "the library's RAND_bytes is replaced by a seeded stream", "BoringSSL's AES and the installed Highway are trusted"};

namespace {
// Model of a context: which tree nodes it can resume from.
struct CtxModel {
  const Config& c;
  std::vector<int> tree;  // tree level of each hierarchy level
  int prev = -1;
  int part_level = 0;
  std::set<u128> part;    // tree indices at tree[part_level]
  std::set<u128> scope;   // points of level part_level handed in (for choosing extensions)

  explicit CtxModel(const Config& cfg) : c(cfg) {}
  u128 TreeIndex(u128 x, int level) const {
    int sh = c.logs[level] - tree[level];
    return sh >= 128 ? 0 : x >> sh;
  }
  bool Resumable(const std::vector<u128>& tree_idx, int level) const {
    if (part.empty() || tree[part_level] > tree[level]) return true;
    int sh = tree[level] - tree[part_level];
    for (u128 t : tree_idx)
      if (!part.count(sh >= 128 ? 0 : t >> sh)) return false;
    return true;
  }
};

// Tree levels per hierarchy level, from the documented packing rule: a tree
// node holds floor(128 / bits) elements (rounded to a power of two), but two
// hierarchy levels never share a tree level.
std::vector<int> TreeLevels(const Config& c) {
  std::vector<int> r;
  int next = 0;
  for (int i = 0; i < c.levels(); i++) {
    int bits = c.types[i]->bits;
    int pack = 0;
    if (bits) while ((bits << (pack + 1)) <= 128) pack++;
    // bits that are not a power of two round up
    if (bits) { int p2 = 1; while (p2 < bits) p2 *= 2; pack = 0; while ((p2 << (pack + 1)) <= 128) pack++; }
    int t = std::max(next, c.logs[i] - pack);
    r.push_back(t);
    next = t + 1;
  }
  return r;
}

std::vector<u128> ToU(const std::vector<absl::uint128>& v) {
  std::vector<u128> r;
  for (auto x : v) r.push_back(U(x));
  return r;
}
}  // namespace

CASE(histories, 60000, 1500000) {
  GenOptions o;
  o.max_levels = 6;
  bool deep = s.Chance(1, 3);
  o.max_gap = deep ? 40 : 9;
  o.max_log = 128;
  Config c = DrawConfig(s, o);
  CtxModel m(c);
  m.tree = TreeLevels(c);
  EvaluationContext ctx[2];
  for (int p = 0; p < 2; p++) {
    auto x = c.dpf->CreateEvaluationContext(c.key[p]);
    REQUIRE(x.ok()) << x.status();
    ctx[p] = std::move(*x);
  }
  std::unique_ptr<DistributedPointFunction> second;
  if (s.Chance(1, 4)) second = std::move(*DistributedPointFunction::CreateIncremental(c.params));

  int steps = (int)s.Int(1, 9), useful = 0, last = c.levels() - 1;
  bool on_path = false;
  for (int st = 0; st < steps; st++) {
    int kind = (int)s.Draw(3);  // 0: next, 1: until, 2,3: at
    int level;
    std::vector<u128> pts;
    int in_level;  // level whose domain the points live in
    if (kind <= 1) {
      if (m.prev >= last && !s.Chance(1, 8)) continue;
      level = kind == 0 ? m.prev + 1 : (int)s.Int(0, last);
      if (kind == 1 && level <= m.prev && !s.Chance(1, 5)) level = std::min(last, m.prev + 1);
      in_level = m.prev;
    } else {
      level = (int)s.Int(0, last);
      in_level = level;
    }
    int gap = level < 0 || level > last ? 0 : c.logs[level] - (in_level < 0 ? 0 : c.logs[in_level]);
    if (kind <= 1 && gap > 12) {
      if (gap < 63) continue;  // would need too much memory
    }
    int max_n = kind <= 1 && gap > 8 ? 2 : 8;
    if (in_level >= 0) {
      int n = (int)s.Int(kind <= 1 ? 1 : 0, max_n);
      if (kind <= 1 && s.Chance(1, 20)) n = 0;
      for (int i = 0; i < n; i++) {
        u128 x;
        int how = (int)s.Draw(5);
        if (how <= 1) {
          x = c.AlphaPrefix(in_level);
        } else if (how <= 4 && !m.scope.empty() && !m.part.empty()) {
          // Extends (or is a prefix of) something already handed in.
          auto it = m.scope.begin();
          std::advance(it, s.Draw(m.scope.size() - 1));
          int sh = c.logs[in_level] - c.logs[m.part_level];
          if (sh >= 0) {
            u128 low = sh == 0 ? 0 : s.Edge128(sh == 128 ? ~(u128)0 : (((u128)1 << sh) - 1));
            x = (sh >= 128 ? 0 : *it << sh) | low;
          } else {
            x = -sh >= 128 ? 0 : *it >> -sh;
          }
        } else {
          x = DrawPoint(s, c, in_level);
        }
        pts.push_back(x & c.MaxPoint(in_level));
        if (s.Chance(1, 6)) pts.push_back(pts.back());
        // A point that differs from the last one in a single bit, often a high
        // one.
        if (s.Chance(1, 4)) {
          int bits = c.logs[in_level];
          int b = s.Bool() ? (int)s.Int(0, 127) : bits - 1 - (int)s.Int(0, 3);
          if (b >= 0 && b < bits) pts.push_back(pts.back() ^ ((u128)1 << b));
        }
      }
      if (s.Bool()) std::sort(pts.begin(), pts.end());
    }
    std::vector<absl::uint128> ap;
    for (u128 x : pts) ap.push_back(A(x));

    // What the model expects.
    bool ok = true;
    std::string why;
    int eff_level = kind == 0 && pts.empty() ? 0 : level;
    std::vector<u128> tree_idx;
    if (kind <= 1) {
      level = eff_level;
      if (level > last) { ok = false; why = "level out of range"; }
      else if (m.prev >= last) { ok = false; why = "fully evaluated"; }
      else if (level <= m.prev) { ok = false; why = "level not above previous"; }
      else if ((m.prev < 0) != pts.empty()) { ok = false; why = "prefixes empty iff first"; }
      else if (c.logs[level] - (m.prev < 0 ? 0 : c.logs[m.prev]) >= 63) { ok = false; why = "gap"; }
      else {
        for (u128 x : pts) tree_idx.push_back(m.TreeIndex(x, m.prev));
        if (!pts.empty() && !m.Resumable(tree_idx, m.prev)) { ok = false; why = "prefix not present"; }
      }
    } else {
      for (u128 x : pts) tree_idx.push_back(m.TreeIndex(x, level));
      if (!pts.empty() && !m.Resumable(tree_idx, level)) { ok = false; why = "point not present"; }
    }

    // Between calls a context may travel.
    int travel = (int)s.Draw(3);
    for (int p = 0; p < 2; p++) {
      if (travel == 1) {
        std::string w = ctx[p].SerializeAsString();
        EvaluationContext y;
        REQUIRE(y.ParseFromString(w));
        ctx[p] = y;
      } else if (travel == 2) {
        EvaluationContext y = ctx[p];
        ctx[p] = std::move(y);
      }
    }
    const DistributedPointFunction& d = second && s.Bool() ? *second : *c.dpf;
    const TypeOps& t = *c.types[std::min(std::max(level, 0), last)];
    NOTE(s, "step " << st << " " << (kind == 0 ? "next" : kind == 1 ? "until" : "at") << " level=" << level << " points=[" << [&] {
      std::string r; for (u128 x : pts) r += pbt::Str128(x) + " "; return r; }() << "] expect " << (ok ? "ok" : why));
    absl::StatusOr<Results> r[2] = {Results(), Results()};
    for (int p = 0; p < 2; p++)
      r[p] = kind == 0 ? t.next(d, ap, ctx[p]) : kind == 1 ? t.until(d, level, ap, ctx[p]) : t.at_ctx(d, level, ap, ctx[p]);
    REQUIRE(r[0].ok() == ok && r[1].ok() == ok) << "expected " << (ok ? "acceptance" : "refusal: " + why) << ", got " << r[0].status() << " / " << r[1].status();
    if (!ok) {
      REQUIRE(r[0].status().code() == absl::StatusCode::kInvalidArgument) << r[0].status();
      s.Label("refused: " + why);
      continue;
    }
    // Values.
    size_t per = kind <= 1 ? (size_t)1 << (c.logs[level] - (m.prev < 0 ? 0 : c.logs[m.prev])) : 1;
    size_t want = kind <= 1 && m.prev < 0 ? per : per * pts.size();
    REQUIRE(r[0]->size() == want && r[1]->size() == want) << "sizes " << r[0]->size() << "," << r[1]->size() << " expected " << want;
    for (size_t i = 0; i < want; i++) {
      u128 x = kind >= 2 ? pts[i] : (m.prev < 0 ? (u128)i : pts[i / per] * per + i % per);
      Leaves got = Add(t.leaves, (*r[0])[i], (*r[1])[i]);
      REQUIRE(got == c.Expected(level, x)) << "step " << st << " level " << level << " x=" << pbt::Str128(x) << " got " << Show(got) << " expected " << Show(c.Expected(level, x));
    }
    if (!pts.empty()) {
      useful++;
      for (u128 x : pts) on_path |= x == c.AlphaPrefix(in_level);
    }
    // Model update.
    if (kind >= 2) {
      if (!pts.empty()) {
        m.part.clear(); m.scope.clear();
        for (size_t i = 0; i < pts.size(); i++) { m.part.insert(tree_idx[i]); m.scope.insert(pts[i]); }
        m.part_level = level;
        m.prev = level;
      }
    } else {
      if (!pts.empty()) {
        m.part.clear(); m.scope.clear();
        if (level < last)
          for (size_t i = 0; i < pts.size(); i++) { m.part.insert(tree_idx[i]); m.scope.insert(pts[i]); }
        m.part_level = m.prev;
      }
      m.prev = level;
    }
    s.Label(kind == 0 ? "evaluate next" : kind == 1 ? "evaluate until" : "evaluate at");
  }
  s.NonTrivial(useful >= 2 && on_path);
}

// The usage the documentation describes: walk down level by level, keeping
// the prefixes with non-zero values (heavy hitters), always including some
// that lead nowhere.
CASE(heavy_hitters, 15000, 300000) {
  GenOptions o;
  o.max_levels = 12;
  o.max_gap = 6;
  o.max_log = 60;
  Config c = DrawConfig(s, o);
  EvaluationContext ctx[2];
  for (int p = 0; p < 2; p++) ctx[p] = *c.dpf->CreateEvaluationContext(c.key[p]);
  std::vector<u128> frontier;
  for (int level = 0; level < c.levels(); level++) {
    std::vector<absl::uint128> ap;
    for (u128 x : frontier) ap.push_back(A(x));
    auto a = c.types[level]->until(*c.dpf, level, ap, ctx[0]), b = c.types[level]->until(*c.dpf, level, ap, ctx[1]);
    REQUIRE(a.ok() && b.ok()) << a.status() << b.status();
    int gap = c.logs[level] - (level ? c.logs[level - 1] : 0);
    size_t per = (size_t)1 << gap;
    REQUIRE(a->size() == per * std::max<size_t>(1, frontier.size()) && b->size() == a->size());
    std::vector<u128> next;
    bool found = false;
    for (size_t i = 0; i < a->size(); i++) {
      u128 x = frontier.empty() ? (u128)i : frontier[i / per] * per + i % per;
      Leaves got = Add(c.types[level]->leaves, (*a)[i], (*b)[i]);
      REQUIRE(got == c.Expected(level, x)) << "level " << level << " x=" << pbt::Str128(x);
      found |= x == c.AlphaPrefix(level);
      if (x == c.AlphaPrefix(level)) next.push_back(x);
    }
    REQUIRE(found) << "alpha's prefix lost at level " << level;
    int decoys = (int)s.Int(0, 6);
    for (int i = 0; i < decoys; i++) {
      size_t k = s.Draw(a->size() - 1);
      u128 x = frontier.empty() ? (u128)k : frontier[k / per] * per + k % per;
      if (std::find(next.begin(), next.end(), x) == next.end()) next.push_back(x);
    }
    if (s.Bool()) std::sort(next.begin(), next.end());
    frontier = next;
  }
  s.NonTrivial(c.levels() >= 2);
}

// The same with thousands of prefixes and points.
CASE(many_prefixes, 200, 4000) {
  GenOptions o;
  o.max_levels = 6;
  o.min_log = 6;
  o.max_gap = 4;
  o.max_log = 40;
  Config c = DrawConfig(s, o);
  EvaluationContext ctx[2];
  for (int p = 0; p < 2; p++) ctx[p] = *c.dpf->CreateEvaluationContext(c.key[p]);
  pbt::Rng rng{s.Draw(~0ull)};
  int limit = (int)s.Small(100, 4000), keep = (int)s.Int(1, 4);
  bool sorted = s.Bool(), with_alpha = s.Chance(3, 4);
  std::vector<u128> frontier;
  size_t most = 0;
  bool on_path = true;
  for (int level = 0; level < c.levels(); level++) {
    std::vector<absl::uint128> ap;
    for (u128 x : frontier) ap.push_back(A(x));
    NOTE(s, "level " << level << " with " << ap.size() << " prefixes");
    auto a = c.types[level]->until(*c.dpf, level, ap, ctx[0]), b = c.types[level]->until(*c.dpf, level, ap, ctx[1]);
    REQUIRE(a.ok() && b.ok()) << a.status() << b.status();
    size_t per = (size_t)1 << (c.logs[level] - (level ? c.logs[level - 1] : 0));
    REQUIRE(a->size() == per * std::max<size_t>(1, frontier.size()) && b->size() == a->size());
    std::vector<u128> next;
    for (size_t i = 0; i < a->size(); i++) {
      u128 x = frontier.empty() ? (u128)i : frontier[i / per] * per + i % per;
      Leaves got = Add(c.types[level]->leaves, (*a)[i], (*b)[i]);
      REQUIRE(got == c.Expected(level, x)) << "level " << level << " x=" << pbt::Str128(x) << " (" << i << " of " << a->size() << ")";
      bool alpha = x == c.AlphaPrefix(level);
      if ((alpha && with_alpha) || ((int)next.size() < limit && (int)(rng.Next() % 4) < keep)) next.push_back(x);
    }
    if (next.empty()) next.push_back(frontier.empty() ? (u128)0 : frontier[0] * per);
    if (!sorted) for (size_t i = next.size() - 1; i > 0; i--) std::swap(next[i], next[rng.Next() % (i + 1)]);
    // Points of this level, with the context as it is now.
    if (level + 1 < c.levels() && s.Chance(1, 3)) {
      std::vector<absl::uint128> xs;
      for (u128 x : next) xs.push_back(A(x));
      EvaluationContext copy[2] = {ctx[0], ctx[1]};
      auto y = c.types[level]->at_ctx(*c.dpf, level, xs, copy[0]), z = c.types[level]->at_ctx(*c.dpf, level, xs, copy[1]);
      REQUIRE(y.ok() && z.ok()) << y.status() << z.status();
      REQUIRE(y->size() == xs.size() && z->size() == xs.size());
      for (size_t i = 0; i < xs.size(); i++) REQUIRE(Add(c.types[level]->leaves, (*y)[i], (*z)[i]) == c.Expected(level, next[i])) << "evaluated at point " << i << " of level " << level;
    }
    most = std::max(most, next.size());
    frontier = next;
    on_path &= with_alpha;
  }
  s.NonTrivial(c.levels() >= 2 && most > 100 && on_path);
}

// More than 2^31 outputs under a few prefixes.
HUGE_CASE(huge_expansion, 0, 1) {
  std::vector<DpfParameters> p(2);
  int top = (int)s.Int(1, 6);
  for (int i = 0; i < 2; i++) {
    p[i].set_log_domain_size(i ? top + 29 : top);
    p[i].mutable_value_type()->mutable_integer()->set_bitsize(i ? 8 : 128);   // one prefix per block
  }
  auto d = DistributedPointFunction::CreateIncremental(p);
  REQUIRE(d.ok()) << d.status();
  uint64_t n = 1ull << top, alpha = s.Draw((n << 29) - 1);
  uint8_t beta[2] = {(uint8_t)s.Int(1, 255), (uint8_t)s.Int(1, 255)};
  std::vector<absl::uint128> pre = {absl::uint128(alpha >> 29), absl::uint128(s.Draw(n - 1)), absl::uint128(s.Draw(n - 1)), absl::uint128(s.Draw(n - 1)), absl::uint128(s.Draw(n - 1))};
  std::swap(pre[0], pre[s.Draw(4)]);
  NOTE(s, "levels 2^" << top << " and 2^" << top + 29 << ", alpha=" << alpha << ", five prefixes");
  std::vector<Value> b(2);
  for (int i = 0; i < 2; i++) b[i].mutable_integer()->set_value_uint64(beta[i]);
  auto k = (*d)->GenerateKeysIncremental(absl::uint128(alpha), b);
  REQUIRE(k.ok()) << k.status();
  std::vector<uint8_t> r[2];
  for (int i = 0; i < 2; i++) {
    auto ctx = (*d)->CreateEvaluationContext(i ? k->second : k->first);
    REQUIRE(ctx.ok()) << ctx.status();
    auto first = (*d)->EvaluateNext<absl::uint128>({}, *ctx);
    REQUIRE(first.ok() && first->size() == n) << first.status();
    auto e = (*d)->EvaluateNext<uint8_t>(pre, *ctx);
    REQUIRE(e.ok()) << e.status();
    REQUIRE(e->size() == 5ull << 29) << e->size() << " outputs";
    r[i] = std::move(*e);
  }
  for (uint64_t x = 0; x < 5ull << 29; x++) {
    uint64_t at = (absl::Uint128Low64(pre[x >> 29]) << 29) + (x & ((1ull << 29) - 1));
    REQUIRE((uint8_t)(r[0][x] + r[1][x]) == (at == alpha ? beta[1] : 0)) << "output " << x << " (point " << at << ") recombines to " << (int)(uint8_t)(r[0][x] + r[1][x]);
  }
  s.NonTrivial();
}
