// C04: keys and shares are those of the published construction.
// LIBS: dcf
// SRCS: dpf_types.cc dpf_types_0.cc dpf_types_1.cc dpf_types_2.cc dpf_types_3.cc dcf_types.cc dcf_types_0.cc dcf_types_1.cc dcf_types_2.cc dcf_types_3.cc
#include <algorithm>

#include "dcf_types.h"
#include "pbt.h"
#include "ref_dpf.h"
using namespace vt;
using pbt::Src;

const char* const pbt::kRule =
    "A case draws 1-5 hierarchy levels (43 output types, log domain sizes up to 128), then either generates keys and "
    "compares every field of both with an independent reference run on the same root seeds, or draws an arbitrary "
    "well-formed key (any party, seeds, corrections) and compares evaluations of every kind with the reference walk. "
    "Non-trivial: the tree has at least one correction word, and for evaluations at least two distinct points.";
const std::vector<std::string> pbt::kAssumptions = {
    "the library's RAND_bytes is replaced by a seeded stream",
    "the reference's own AES is validated against FIPS-197 at start-up"};

static void NeedAes() { static bool ok = ref::AesSelfTest(); REQUIRE(ok) << "reference AES"; }

static std::string FirstDifference(const DpfKey& a, const DpfKey& b) {
  auto str = [](const google::protobuf::Message& m) { return m.ShortDebugString(); };
  if (a.party() != b.party()) return "party";
  if (str(a.seed()) != str(b.seed())) return "seed";
  if (a.correction_words_size() != b.correction_words_size()) return std::to_string(a.correction_words_size()) + " instead of " + std::to_string(b.correction_words_size()) + " correction words";
  for (int i = 0; i < a.correction_words_size(); i++)
    if (str(a.correction_words(i)) != str(b.correction_words(i))) return "correction word " + std::to_string(i) + ": " + str(a.correction_words(i)).substr(0, 400) + " expected " + str(b.correction_words(i)).substr(0, 400);
  return "last level: " + str(a.last_level_value_correction(0)) + " (of " + std::to_string(a.last_level_value_correction_size()) + ") expected " + str(b.last_level_value_correction(0)) + " (of " + std::to_string(b.last_level_value_correction_size()) + ")";
}

CASE(keys, 12000, 400000) {
  NeedAes();
  GenOptions o;
  o.max_levels = 5;
  Config c = DrawConfig(s, o);
  ref::Dpf d(c.types, c.logs);
  ref::Key k[2];
  d.Gen(c.alpha, c.beta, ref::Dpf::GetBlock(c.key[0].seed()), ref::Dpf::GetBlock(c.key[1].seed()), k);
  for (int p = 0; p < 2; p++) {
    DpfKey want = d.Proto(k[p]);
    REQUIRE(c.key[p].SerializeAsString() == want.SerializeAsString()) << "party " << p << " key differs from the construction: " << FirstDifference(c.key[p], want);
  }
  // Shares of an honest key, too.
  int level = (int)s.Draw(c.levels() - 1);
  u128 x = DrawPoint(s, c, level);
  for (int p = 0; p < 2; p++) {
    auto r = c.types[level]->at(*c.dpf, c.key[p], level, {A(x)});
    REQUIRE(r.ok()) << r.status();
    Leaves want = d.At(k[p], level, x);
    REQUIRE((*r)[0] == want) << "share of party " << p << " at level " << level << " x=" << pbt::Str128(x) << " is " << Show((*r)[0]) << ", expected " << Show(want);
  }
  s.NonTrivial(!k[0].cw.empty());
}

// A configuration with an arbitrary key instead of a generated one.
struct Arb {
  Config c;
  std::unique_ptr<ref::Dpf> d;
  ref::Key k;
  DpfKey key;
};
static void DrawArb(Src& s, const GenOptions& o, Arb* a) {
  NeedAes();
  std::string target = PickTarget(s);
  DrawParams(s, o, &a->c);
  NOTE(s, "simd=" << target << " " << Show(a->c));
  MakeDpf(&a->c);
  a->d.reset(new ref::Dpf(a->c.types, a->c.logs));
  a->k = a->d->Arbitrary(s);
  a->key = a->d->Proto(a->k);
  NOTE(s, ref::Show(a->k));
  if (s.Chance(1, 6)) { DpfKey copy; REQUIRE(copy.ParseFromString(a->key.SerializeAsString())); a->key = copy; }
  s.Label("simd " + target);
  for (auto* t : a->c.types) s.Label("type " + t->name.substr(0, 48));
}

CASE(points, 15000, 500000) {
  Arb a;
  GenOptions o;
  o.max_levels = 5;
  DrawArb(s, o, &a);
  int level = (int)s.Draw(a.c.levels() - 1);
  std::vector<absl::uint128> xs;
  std::vector<u128> ux;
  u128 base = s.Edge128(a.c.MaxPoint(level));
  for (int n = (int)s.Small(1, 24); n > 0; n--) {
    u128 x = s.Bool() ? s.Edge128(a.c.MaxPoint(level)) : (base ^ ((u128)1 << s.Int(0, 127))) & a.c.MaxPoint(level);
    ux.push_back(x);
    xs.push_back(A(x));
  }
  auto r = a.c.types[level]->at(*a.c.dpf, a.key, level, xs);
  REQUIRE(r.ok()) << "well-formed key refused: " << r.status();
  REQUIRE(r->size() == xs.size());
  for (size_t i = 0; i < xs.size(); i++) {
    Leaves want = a.d->At(a.k, level, ux[i]);
    REQUIRE((*r)[i] == want) << "level " << level << " x=" << pbt::Str128(ux[i]) << " share " << Show((*r)[i]) << ", expected " << Show(want);
  }
  s.NonTrivial(a.d->tree[level] > 0 && ux.size() > 1 && ux[0] != ux[1]);
}

// Stepwise expansion through a context.
CASE(expansion, 8000, 250000) {
  Arb a;
  GenOptions o;
  o.max_levels = 4;
  o.max_gap = (int)s.Small(1, 8);
  DrawArb(s, o, &a);
  auto ctx = a.c.dpf->CreateEvaluationContext(a.key);
  REQUIRE(ctx.ok()) << ctx.status();
  int prev = -1, last = a.c.levels() - 1;
  std::vector<u128> prefixes;   // of level prev
  size_t compared = 0;
  while (prev < last) {
    int level = (int)s.Int(prev + 1, last);
    if (a.c.logs[level] - (prev < 0 ? 0 : a.c.logs[prev]) > 11) level = prev + 1;
    std::vector<absl::uint128> ap;
    for (u128 p : prefixes) ap.push_back(A(p));
    auto r = level == prev + 1 && s.Bool() ? a.c.types[level]->next(*a.c.dpf, ap, *ctx) : a.c.types[level]->until(*a.c.dpf, level, ap, *ctx);
    REQUIRE(r.ok()) << r.status();
    int gap = a.c.logs[level] - (prev < 0 ? 0 : a.c.logs[prev]);
    if (prev < 0) prefixes = {0};
    size_t per = (size_t)1 << gap;
    REQUIRE(r->size() == prefixes.size() * per) << r->size() << " results for " << prefixes.size() << " prefixes";
    std::vector<u128> outs;
    for (u128 p : prefixes) for (size_t j = 0; j < per; j++) outs.push_back((p << gap) | j);
    // Every result of small expansions, a sample of large ones.
    size_t step = outs.size() > 400 ? outs.size() / 301 + 1 : 1;
    for (size_t i = s.Draw(step - 1); i < outs.size(); i += step, compared++) {
      Leaves want = a.d->At(a.k, level, outs[i]);
      REQUIRE((*r)[i] == want) << "level " << level << " x=" << pbt::Str128(outs[i]) << " share " << Show((*r)[i]) << ", expected " << Show(want);
    }
    prefixes.clear();
    for (int n = (int)s.Small(1, gap > 6 ? 3 : 8); n > 0; n--) prefixes.push_back(s.Pick(outs));
    if (s.Bool()) { std::sort(prefixes.begin(), prefixes.end()); prefixes.erase(std::unique(prefixes.begin(), prefixes.end()), prefixes.end()); }
    if (s.Chance(1, 8)) { EvaluationContext copy; REQUIRE(copy.ParseFromString(ctx->SerializeAsString())); *ctx = copy; }
    prev = level;
  }
  s.NonTrivial(a.d->tree[last] > 0 && compared > 2);
}

// All levels of several keys at once.
CASE(apply, 8000, 250000) {
  Arb a;
  GenOptions o;
  o.max_levels = 4;
  o.same_type = true;
  DrawArb(s, o, &a);
  std::vector<ref::Key> ks = {a.k};
  std::vector<DpfKey> keys = {a.key};
  for (int n = (int)s.Small(0, 9); n > 0; n--) { ks.push_back(a.d->Arbitrary(s)); keys.push_back(a.d->Proto(ks.back())); }
  std::vector<const DpfKey*> ptrs;
  std::vector<absl::uint128> xs;
  int last = a.c.levels() - 1;
  for (auto& k : keys) { ptrs.push_back(&k); xs.push_back(A(s.Edge128(a.c.MaxPoint(last)))); }
  std::vector<Results> out;
  absl::Status st = a.c.types[0]->apply(*a.c.dpf, ptrs, xs, 0, -1, &out, nullptr);
  REQUIRE(st.ok()) << st;
  REQUIRE(out.size() == a.c.types.size()) << out.size() << " levels";
  for (int l = 0; l <= last; l++) {
    REQUIRE(out[l].size() == keys.size());
    for (size_t i = 0; i < keys.size(); i++) {
      int sh = a.c.logs[last] - a.c.logs[l];
      Leaves want = a.d->At(ks[i], l, sh >= 128 ? 0 : U(xs[i]) >> sh);
      REQUIRE(out[l][i] == want) << "level " << l << " key " << i << " share " << Show(out[l][i]) << ", expected " << Show(want);
    }
  }
  s.NonTrivial(a.d->tree[last] > 0 && keys.size() > 1);
}

// Comparison functions: the keys of an incremental DPF on the prefixes of
// alpha whose values are beta where alpha has a one, summed up where x has a zero.
CASE(comparison, 4000, 120000) {
  NeedAes();
  std::string target = PickTarget(s);
  Dcf f;
  DrawDcf(s, 128, &f);
  std::vector<const TypeOps*> types(f.log, f.type);
  std::vector<int> logs;
  for (int i = 0; i < f.log; i++) logs.push_back(i);
  ref::Dpf d(types, logs);
  NOTE(s, f.type->name << " 2^" << f.log << " " << target);
  ref::Key k;
  DcfKey key;
  if (s.Bool()) {
    u128 alpha = s.Edge128(f.Max());
    Leaves beta = DrawValue(s, *f.type);
    NOTE(s, "alpha=" << pbt::Str128(alpha) << " beta=" << Show(beta));
    pbt::SeedRand(s.Draw(~0ull));
    auto got = s.Bool() ? f.dcf->GenerateKeys(A(alpha), ValueProto(f.type->shape, beta)) : f.ops->gen(*f.dcf, alpha, beta);
    REQUIRE(got.ok()) << got.status();
    std::vector<Leaves> betas;
    for (int i = 0; i < f.log; i++) betas.push_back((alpha >> (f.log - 1 - i)) & 1 ? beta : Zero(*f.type));
    ref::Key ks[2];
    d.Gen(alpha >> 1, betas, ref::Dpf::GetBlock(got->first.key().seed()), ref::Dpf::GetBlock(got->second.key().seed()), ks);
    for (int p = 0; p < 2; p++) {
      const DpfKey& g = (p ? got->second : got->first).key();
      DpfKey want = d.Proto(ks[p]);
      REQUIRE(g.SerializeAsString() == want.SerializeAsString()) << "party " << p << " key differs from the construction: " << FirstDifference(g, want);
    }
    int p = s.Bool();
    k = ks[p];
    key = p ? got->second : got->first;
  } else {
    k = d.Arbitrary(s);
    *key.mutable_key() = d.Proto(k);
  }
  for (int n = (int)s.Small(1, 3); n > 0; n--) {
    u128 x = s.Edge128(f.Max());
    auto r = f.ops->eval(*f.dcf, key, x);
    REQUIRE(r.ok()) << r.status();
    Leaves want = Zero(*f.type);
    for (int i = 0; i < f.log; i++)
      if (!((x >> (f.log - 1 - i)) & 1)) want = Add(f.type->leaves, want, d.At(k, i, f.log - i >= 128 ? 0 : x >> (f.log - i)));
    REQUIRE(*r == want) << "x=" << pbt::Str128(x) << " share " << Show(*r) << ", expected " << Show(want);
  }
  s.NonTrivial(f.log > 1);
}
