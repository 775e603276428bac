// C03: every way to evaluate a key gives the same share for the same point.
// LIBS: core
// SRCS: dpf_types.cc dpf_types_0.cc dpf_types_1.cc dpf_types_2.cc dpf_types_3.cc
#include <algorithm>

#include "dpf_gen.h"
#include "pbt.h"
using namespace vt;
using pbt::Src;

const char* const pbt::kRule =
    "A case draws a DPF and a key and evaluates the same points in two ways that must agree bit for bit: one call per "
    "point against batches in any order with duplicates, full expansion, expansion skipping levels, prefix by prefix, "
    "contexts resumed at other levels, and batched evaluate-and-apply over many keys (also shifted). Non-trivial: at "
    "least two distinct points in a domain of at least two, or at least two distinct keys.";
const std::vector<std::string> pbt::kAssumptions = {"the library's RAND_bytes is replaced by a seeded stream"};

static std::vector<absl::uint128> ToA(const std::vector<u128>& v) {
  std::vector<absl::uint128> r;
  for (u128 x : v) r.push_back(A(x));
  return r;
}
// The reference strategy: one point, no context.
static Leaves One(const Config& c, const DpfKey& k, int level, u128 x) {
  auto r = c.types[level]->at(*c.dpf, k, level, {A(x)});
  REQUIRE(r.ok()) << r.status();
  REQUIRE(r->size() == 1);
  return (*r)[0];
}

static void Batches(Src& s, int n) {
  GenOptions o;
  o.max_levels = 3;
  Config c = DrawConfig(s, o);
  int p = (int)s.Draw(1), level = (int)s.Int(0, c.levels() - 1);
  std::vector<u128> pts;
  for (int i = 0; i < n; i++) pts.push_back(i && s.Chance(1, 5) ? pts[s.Draw(i - 1)] : DrawPoint(s, c, level));
  std::string target2 = PickTarget(s);
  auto r = c.types[level]->at(*c.dpf, c.key[p], level, ToA(pts));
  REQUIRE(r.ok()) << r.status();
  REQUIRE(r->size() == pts.size());
  for (size_t i = 0; i < pts.size(); i++)
    REQUIRE((*r)[i] == One(c, c.key[p], level, pts[i])) << "point " << i << " of " << n << " x=" << pbt::Str128(pts[i]) << " batch on " << target2;
  s.NonTrivial(n > 1 && pts[0] != pts[1]);
}

CASE(batches, 20000, 400000) { Batches(s, (int)s.Small(1, 150)); }
CASE(large_batches, 60, 1200) { Batches(s, (int)s.Small(150, 1500)); }

CASE(expansions, 15000, 300000) {
  GenOptions o;
  o.max_levels = 5;
  o.max_log = 12;
  Config c = DrawConfig(s, o);
  int p = (int)s.Draw(1), level = (int)s.Int(0, c.levels() - 1);
  // Skip straight to `level`.
  EvaluationContext ctx = *c.dpf->CreateEvaluationContext(c.key[p]);
  auto skip = c.types[level]->until(*c.dpf, level, {}, ctx);
  REQUIRE(skip.ok()) << skip.status();
  size_t n = (size_t)1 << c.logs[level];
  REQUIRE(skip->size() == n);
  // All points at once.
  std::vector<u128> all;
  for (size_t i = 0; i < n; i++) all.push_back(i);
  auto at = c.types[level]->at(*c.dpf, c.key[p], level, ToA(all));
  REQUIRE(at.ok()) << at.status();
  for (size_t i = 0; i < n; i++) REQUIRE((*at)[i] == (*skip)[i]) << "EvaluateAt differs from full expansion at " << i << " level " << level;
  // Level by level, through a subset of the levels, with all prefixes in random order.
  ctx = *c.dpf->CreateEvaluationContext(c.key[p]);
  int prev = -1;
  for (int l = 0; l <= level; l++) {
    if (l != level && s.Bool()) continue;
    std::vector<u128> pre;
    if (prev >= 0) {
      for (size_t i = 0; i < ((size_t)1 << c.logs[prev]); i++) pre.push_back(i);
      pbt::Rng r{s.Draw(~0ull)};
      bool shuffle = r.s & 1;
      for (size_t i = pre.size(); shuffle && i > 1; i--) std::swap(pre[i - 1], pre[r.Next() % i]);
    }
    auto e = c.types[l]->until(*c.dpf, l, ToA(pre), ctx);
    REQUIRE(e.ok()) << e.status();
    if (l == level) {
      size_t per = prev < 0 ? n : n >> c.logs[prev];
      for (size_t i = 0; i < e->size(); i++) {
        size_t x = prev < 0 ? i : (size_t)pre[i / per] * per + i % per;
        REQUIRE((*e)[i] == (*skip)[x]) << "prefix expansion differs at " << x;
      }
      REQUIRE(e->size() == n);
    }
    prev = l;
    if (s.Bool()) {
      std::string w = ctx.SerializeAsString();
      ctx.Clear();
      REQUIRE(ctx.ParseFromString(w));
    }
  }
  s.NonTrivial(n > 1);
}

// Contexts: evaluate-at at a chain of levels equals evaluation from scratch.
CASE(resumed, 20000, 400000) {
  GenOptions o;
  o.max_levels = 6;
  Config c = DrawConfig(s, o);
  int p = (int)s.Draw(1);
  EvaluationContext ctx = *c.dpf->CreateEvaluationContext(c.key[p]);
  std::vector<u128> pts;
  int cur = -1, calls = 0;
  for (int st = 0; st < 6; st++) {
    int level = s.Chance(1, 5) ? (int)s.Int(0, c.levels() - 1) : std::min(cur + 1 + (int)s.Draw(1), c.levels() - 1);
    std::vector<u128> next;
    int n = (int)s.Int(1, 9);
    for (int i = 0; i < n; i++) {
      u128 x;
      if (pts.empty()) {
        x = DrawPoint(s, c, level);
      } else {
        u128 base = pts[s.Draw(pts.size() - 1)];
        int sh = c.logs[level] - c.logs[cur];
        x = sh >= 128 ? 0 : sh >= 0 ? base << sh : -sh >= 128 ? 0 : base >> -sh;
        if (sh > 0) x |= s.Edge128(sh == 128 ? ~(u128)0 : (((u128)1 << sh) - 1));
      }
      next.push_back(x);
    }
    auto r = c.types[level]->at_ctx(*c.dpf, level, ToA(next), ctx);
    REQUIRE(r.ok()) << "level " << level << " after " << cur << ": " << r.status();
    REQUIRE(r->size() == next.size());
    for (size_t i = 0; i < next.size(); i++)
      REQUIRE((*r)[i] == One(c, c.key[p], level, next[i])) << "resumed evaluation differs at level " << level << " after level " << cur << " x=" << pbt::Str128(next[i]);
    if (cur >= 0) calls++;
    cur = level;
    pts = next;
    if (s.Chance(1, 4)) {
      std::string w = ctx.SerializeAsString();
      ctx.Clear();
      REQUIRE(ctx.ParseFromString(w));
    }
  }
  s.NonTrivial(calls > 0 && c.levels() > 1);
}

// Many keys at once.
CASE(many_keys, 15000, 300000) {
  GenOptions o;
  o.max_levels = 4;
  o.same_type = true;
  Config c = DrawConfig(s, o);
  int last = c.levels() - 1;
  int n = (int)s.Small(0, 140);
  int distinct = n ? (int)s.Int(1, std::min(n, 6)) : 0;
  std::vector<DpfKey> keys;
  std::vector<u128> pts;
  std::vector<DpfKey> pool = {c.key[0], c.key[1]};
  for (int i = 2; i < distinct; i++) {
    Config c2;
    c2.types = c.types; c2.logs = c.logs; c2.params = c.params;
    c2.dpf = std::move(*DistributedPointFunction::CreateIncremental(c.params));
    for (auto* t : c.types) REQUIRE(t->reg(*c2.dpf).ok());
    DrawKeys(s, &c2);
    pool.push_back(c2.key[s.Draw(1)]);
  }
  for (int i = 0; i < n; i++) {
    keys.push_back(pool[s.Draw(std::max(distinct, 1) - 1)]);
    pts.push_back(DrawPoint(s, c, last));
  }
  int room = 128 - c.logs[last];
  int shift = room > 0 && s.Chance(1, 3) ? (int)s.Int(1, room) : 0;
  std::vector<absl::uint128> in;
  for (u128 x : pts) in.push_back(A(shift >= 128 ? s.Uni128() : (x << shift) | (shift ? s.Edge128(((u128)1 << shift) - 1) : 0)));
  std::vector<const DpfKey*> ptr;
  for (auto& k : keys) ptr.push_back(&k);
  std::vector<Results> out;
  std::vector<int> levels;
  int stop = s.Chance(1, 4) ? (int)s.Int(1, c.levels()) : -1;
  bool by_value = stop < 0 && s.Bool();
  NOTE(s, "keys=" << n << " shift=" << shift << " stop=" << stop);
  auto st = by_value ? c.types[0]->apply_val(*c.dpf, keys, in, shift, &out)
                     : c.types[0]->apply(*c.dpf, ptr, in, shift, stop, &out, &levels);
  REQUIRE(st.ok()) << st;
  if (n == 0) {  // nothing to evaluate: whether empty results are reported is left open
    for (auto& r : out) REQUIRE(r.empty());
    return;
  }
  REQUIRE((int)out.size() == (stop > 0 ? stop : c.levels())) << out.size() << " callbacks";
  for (size_t l = 0; l < out.size(); l++) {
    REQUIRE(out[l].size() == keys.size());
    for (int i = 0; i < n; i++) {
      int sh = c.logs[last] - c.logs[l];
      u128 x = shift >= 128 ? 0 : pts[i];
      u128 pre = sh >= 128 ? 0 : x >> sh;
      REQUIRE(out[l][i] == One(c, keys[i], (int)l, pre)) << "key " << i << "/" << n << " level " << l << " x=" << pbt::Str128(pre) << " shift " << shift;
    }
  }
  s.NonTrivial(n > 1 && distinct > 1);
}
