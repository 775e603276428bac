// C18: the basic generator passes on the system's randomness in full.
// LIBS: prng
#include <memory>
#include "dcf/fss_gates/prng/basic_rng.h"
#include "gf2.h"
#include "pbt.h"
using pbt::Src;
using distributed_point_functions::BasicRng;
using distributed_point_functions::SecurePrng;

const char* const pbt::kRule =
    "A case draws a pattern of up to 6 draws (widths 8/64/128, up to 3 generators, seeds), repeats it often enough that "
    "all drawn bits together must span the full space over GF(2) (so nothing is repeated, narrowed, cached or derived), "
    "and counts the bytes taken from the system generator; or makes a system-generator call fail at a chosen point of a "
    "history. Non-trivial: more than one draw in the pattern, or a failure that was injected into a draw.";
const std::vector<std::string> pbt::kAssumptions = {
    "system randomness is replaced by a seeded stream; an honest generator fails the span test with probability below 2^-63"};

static int Width(int k) { return k == 0 ? 8 : k == 1 ? 64 : 128; }
struct Drawn { bool ok; absl::Status status; uint64_t lo = 0, hi = 0; };
static Drawn DrawFrom(SecurePrng& r, int k) {
  Drawn d;
  if (k == 0) { auto v = r.Rand8(); d.ok = v.ok(); d.status = v.status(); if (d.ok) d.lo = *v; }
  else if (k == 1) { auto v = r.Rand64(); d.ok = v.ok(); d.status = v.status(); if (d.ok) d.lo = *v; }
  else { auto v = r.Rand128(); d.ok = v.ok(); d.status = v.status(); if (d.ok) { d.lo = absl::Uint128Low64(*v); d.hi = absl::Uint128High64(*v); } }
  return d;
}
static std::vector<std::unique_ptr<SecurePrng>> Make(Src& s, int n) {
  std::vector<std::unique_ptr<SecurePrng>> g;
  for (int i = 0; i < n; i++) {
    auto r = BasicRng::Create(s.Bool() ? "" : s.Str(20));
    REQUIRE(r.ok()) << r.status();
    g.push_back(std::move(*r));
  }
  return g;
}

CASE(full_entropy, 900, 20000) {
  int n = (int)s.Int(1, 3), len = (int)s.Int(1, 6);
  pbt::SeedRand(s.Draw(~0ull));
  auto g = Make(s, n);
  std::vector<std::pair<int, int>> pat;
  int dim = 0;
  for (int i = 0; i < len; i++) {
    pat.push_back({(int)s.Draw(n - 1), (int)s.Draw(2)});
    dim += Width(pat[i].second);
    NOTE(s, "generator " << pat[i].first << " draws " << Width(pat[i].second) << " bits");
  }
  bool fresh = s.Chance(1, 4);  // new generators every round
  std::vector<gf2::Row> rows;
  uint64_t used0 = pbt::RandBytesUsed(), drawn = 0;
  for (int r = 0; r < dim + 65; r++) {
    if (fresh && r) g = Make(s, n);
    gf2::Bits b;
    for (auto& p : pat) {
      Drawn d = DrawFrom(*g[p.first], p.second);
      REQUIRE(d.ok) << d.status;
      int w = Width(p.second);
      b.Push(d.lo, std::min(w, 64));
      if (w == 128) b.Push(d.hi, 64);
      drawn += w / 8;
      REQUIRE(pbt::RandBytesUsed() - used0 >= drawn) << drawn << " bytes drawn from only " << pbt::RandBytesUsed() - used0 << " bytes of system randomness";
    }
    rows.push_back(b.w);
  }
  int rank = gf2::AffineRank(rows);
  REQUIRE(rank == dim) << "the " << dim << " bits of this pattern of draws span only " << rank << " dimensions";
  s.NonTrivial(len > 1);
}

CASE(failures, 30000, 500000) {
  int n = (int)s.Int(1, 3), len = (int)s.Int(1, 12);
  pbt::SeedRand(s.Draw(~0ull));
  auto g = Make(s, n);
  bool hit = false;
  for (int i = 0; i < len; i++) {
    int w = (int)s.Draw(n - 1), k = (int)s.Draw(2);
    bool fail = s.Chance(1, 3);
    if (fail) pbt::FailRandAfter(0);
    uint64_t f0 = pbt::RandFailures();
    Drawn d = DrawFrom(*g[w], k);
    bool failed = pbt::RandFailures() > f0;
    NOTE(s, "generator " << w << " draws " << Width(k) << " bits" << (failed ? " while the system generator fails" : ""));
    REQUIRE(d.ok == !failed) << (failed ? "the system generator failed, but a value was returned" : d.status.ToString());
    if (failed) REQUIRE(d.status.code() == absl::StatusCode::kInternal) << d.status;
    hit |= failed;
  }
  s.NonTrivial(hit);
}

CASE(no_seed, 2000, 20000) {
  auto seed = BasicRng::GenerateSeed();
  REQUIRE(seed.ok()) << seed.status();
  REQUIRE((int)seed->size() == BasicRng::SeedLength()) << "a seed of " << seed->size() << " bytes, documented length " << BasicRng::SeedLength();
  // Equal seeds do not make equal generators.
  pbt::SeedRand(s.Draw(~0ull));
  auto a = BasicRng::Create(*seed), b = BasicRng::Create(*seed);
  REQUIRE(a.ok() && b.ok());
  auto x = (*a)->Rand128(), y = (*b)->Rand128();
  REQUIRE(x.ok() && y.ok() && *x != *y) << "two generators returned the same 128-bit value";
  s.NonTrivial();
}
