// C09: seed expansion along paths is the same on every SIMD variant, equals a
// step-by-step reference, and stays inside its buffers.
// LIBS: core
#include <stdlib.h>

#include "dpf/aes_128_fixed_key_hash.h"
#include "dpf/internal/evaluate_prg_hwy.h"
#include "hwy/targets.h"
#include "pbt.h"
#include "ref_aes.h"
using pbt::Src;
using pbt::u128;
namespace D = distributed_point_functions;
namespace I = D::dpf_internal;

const char* const pbt::kRule =
    "A case draws 0..300 seeds (weighted towards counts around vector widths and the 64-block batch), 0..128 levels, paths, "
    "control bits, keys, a right-shift of the paths, one correction per level or one per seed and level, aligned, "
    "misaligned or in-place buffers, and a SIMD variant (or the portable function), and compares seeds and control bits "
    "with a reference. Non-trivial: at least 2 seeds and 2 levels with different paths.";
const std::vector<std::string> pbt::kAssumptions = {
    "correction seeds have the control bit's place (bit 0) clear, as every generated key has",
    "seeds and paths arrays start at multiples of 16 bytes, as absl::uint128 requires"};

namespace {
absl::uint128 A(u128 x) { return absl::MakeUint128((uint64_t)(x >> 64), (uint64_t)x); }
u128 U(absl::uint128 x) { return ((u128)absl::Uint128High64(x) << 64) | absl::Uint128Low64(x); }

// An exactly sized array that starts `off` elements after a 128-byte boundary,
// so that the sanitised build sees any access beyond it.
template <typename T>
struct Buf {
  char* raw = nullptr;
  T* p = nullptr;
  size_t n;
  Buf(size_t count, size_t off) : n(count) {
    void* v = nullptr;
    if (posix_memalign(&v, 128, std::max<size_t>(1, (count + off) * sizeof(T)))) abort();
    raw = (char*)v;
    p = (T*)raw + off;
  }
  ~Buf() { free(raw); }
  Buf(const Buf&) = delete;
};

std::string PickTarget(Src& s) {
  hwy::SetSupportedTargetsForTest(0);
  hwy::GetChosenTarget().Update(hwy::SupportedTargets());
  static const std::vector<int64_t> targets = hwy::SupportedAndGeneratedTargets();
  int64_t t = targets[s.Draw(targets.size() - 1)];
  hwy::SetSupportedTargetsForTest(t);
  hwy::GetChosenTarget().Update(hwy::SupportedTargets());
  return hwy::TargetName(t);
}
struct Input {
  int64_t n;
  int levels, shift;
  bool per_seed;
  u128 kl, kr;
  std::vector<u128> seeds, paths, cs;
  std::vector<char> bits, cl, cr;
  int ncw() const { return per_seed ? (int)(n * levels) : levels; }
};
void DrawInput(Src& s, Input* in, int max_seeds, int max_levels) {
  // Counts near multiples of vector widths.
  static const int kAnchors[] = {0, 1, 2, 4, 8, 16, 32, 64, 128, 192};
  in->n = s.Bool() ? s.Int(0, 24) : kAnchors[s.Draw(9)] + s.Int(-2, 5);
  if (max_seeds > 10000) in->n = s.Small(300, max_seeds);
  if (in->n < 0) in->n = 0;
  if (in->n > max_seeds) in->n = max_seeds;
  in->levels = (int)s.Small(0, max_levels);
  in->shift = s.Bool() ? 0 : (int)s.Small(0, 127);
  in->per_seed = s.Bool();
  in->kl = s.Uni128();
  in->kr = s.Chance(1, 16) ? in->kl : s.Uni128();
  pbt::Rng r{s.Draw(~0ull)};
  int pm = (int)s.Draw(3);  // paths: random, alternating, shared, few bits
  u128 common = s.Edge128(~(u128)0);
  auto rnd = [&] { return ((u128)r.Next() << 64) | r.Next(); };
  int cm = (int)s.Draw(3);
  for (int64_t i = 0; i < in->n; i++) {
    in->seeds.push_back(rnd());
    in->bits.push_back(cm == 0 ? 0 : cm == 1 ? 1 : r.Next() & 1);
    u128 x = rnd();
    if (pm == 1) x = i % 2 ? ~(u128)0 : 0;
    if (pm == 2) x = common;
    if (pm == 3) x = common ^ ((u128)1 << (r.Next() % 128));
    in->paths.push_back(x);
  }
  for (int i = 0; i < in->ncw(); i++) {
    in->cs.push_back(rnd() & ~(u128)1);
    in->cl.push_back(r.Next() & 1);
    in->cr.push_back(r.Next() & 1);
  }
}
void Reference(const Input& in, std::vector<u128>* seeds, std::vector<char>* bits) {
  auto l = ref::Aes128::FromInt(in.kl), rr = ref::Aes128::FromInt(in.kr);
  *seeds = in.seeds;
  *bits = in.bits;
  for (int64_t i = 0; i < in.n; i++) {
    u128 x = in.seeds[i];
    bool t = in.bits[i];
    for (int j = 0; j < in.levels; j++) {
      int bit = in.levels - j - 1 + in.shift;
      bool right = bit < 128 && ((in.paths[i] >> bit) & 1);
      u128 e = ref::Mmo(right ? rr : l, x);
      size_t c = in.per_seed ? (size_t)j * in.n + i : j;
      bool nt = e & 1;
      x = e & ~(u128)1;
      if (t) { x ^= in.cs[c]; nt ^= (bool)(right ? in.cr[c] : in.cl[c]); }
      t = nt;
    }
    (*seeds)[i] = x;
    (*bits)[i] = t;
  }
}
void Run(Src& s, const Input& in, bool portable, bool inplace, const size_t off[4], std::vector<u128>* seeds, std::vector<char>* bits) {
  auto pl = D::Aes128FixedKeyHash::Create(A(in.kl)), pr = D::Aes128FixedKeyHash::Create(A(in.kr));
  REQUIRE(pl.ok() && pr.ok());
  Buf<absl::uint128> si(in.n, off[0]), pa(in.n, off[1]), cs(in.cs.size(), off[2]), so(in.n, off[3]);
  Buf<bool> bi(in.n, 0), cl(in.cl.size(), 0), cr(in.cr.size(), 0), bo(in.n, 0);
  for (int64_t i = 0; i < in.n; i++) { si.p[i] = A(in.seeds[i]); pa.p[i] = A(in.paths[i]); bi.p[i] = in.bits[i]; so.p[i] = A(~in.seeds[i]); bo.p[i] = !in.bits[i]; }
  for (size_t i = 0; i < in.cs.size(); i++) { cs.p[i] = A(in.cs[i]); cl.p[i] = in.cl[i]; cr.p[i] = in.cr[i]; }
  absl::uint128* o = inplace ? si.p : so.p;
  bool* ob = inplace ? bi.p : bo.p;
  auto f = portable ? I::EvaluateSeedsNoHwy : I::EvaluateSeeds;
  absl::Status st = f(in.n, in.levels, in.ncw(), si.p, bi.p, pa.p, in.shift, cs.p, cl.p, cr.p, *pl, *pr, o, ob);
  REQUIRE(st.ok()) << st;
  seeds->clear();
  bits->clear();
  for (int64_t i = 0; i < in.n; i++) { seeds->push_back(U(o[i])); bits->push_back(ob[i]); }
  // Inputs are not modified.
  for (int64_t i = 0; i < in.n; i++) {
    if (!inplace) REQUIRE(U(si.p[i]) == in.seeds[i] && bi.p[i] == (bool)in.bits[i]) << "input " << i << " was modified";
    REQUIRE(U(pa.p[i]) == in.paths[i]) << "path " << i << " was modified";
  }
  for (size_t i = 0; i < in.cs.size(); i++) REQUIRE(U(cs.p[i]) == in.cs[i] && cl.p[i] == (bool)in.cl[i] && cr.p[i] == (bool)in.cr[i]) << "correction " << i << " was modified";
}
// An evaluation with keys, paths and corrections related to those of `in`,
// before or after it in the same process.
void Neighbour(Src& s, const Input& in) {
  Input o = in;
  switch (s.Draw(5)) {
    case 0: o.kr = s.Uni128(); break;
    case 1: o.kl = s.Uni128(); break;
    case 2: std::swap(o.kl, o.kr); break;
    case 3: o.kl ^= (u128)1 << s.Draw(127); break;
    case 4: for (auto& x : o.paths) x = ~x; break;
    default: for (auto& x : o.cs) x ^= ~(u128)1; for (auto& x : o.cl) x ^= 1;
  }
  if (o.n > 5 && s.Bool()) {
    // Fewer seeds.
    o.n = s.Int(1, 5);
    o.seeds.resize(o.n), o.paths.resize(o.n), o.bits.resize(o.n);
    o.cs.resize(o.ncw()), o.cl.resize(o.ncw()), o.cr.resize(o.ncw());
  }
  std::vector<u128> want, got;
  std::vector<char> wb, gb;
  size_t off[4] = {0, 0, 0, 0};
  Run(s, o, s.Chance(1, 6), s.Bool(), off, &got, &gb);
  Reference(o, &want, &wb);
  REQUIRE(got == want && gb == wb) << "an evaluation with related arguments is wrong";
}
void Case(Src& s, int max_seeds, int max_levels) {
  static bool ok = ref::AesSelfTest();
  REQUIRE(ok) << "reference AES";
  std::string target = PickTarget(s);
  bool portable = s.Chance(1, 6), inplace = s.Chance(1, 3);
  Input in;
  DrawInput(s, &in, max_seeds, max_levels);
  size_t off[4] = {0, 0, 0, 0};
  if (s.Chance(1, 4)) for (auto& o : off) o = s.Draw(7);
  NOTE(s, target << (portable ? " portable" : "") << (inplace ? " in place" : "") << " seeds " << in.n << " levels " << in.levels << " shift " << in.shift << (in.per_seed ? " per-seed" : "") << " offsets " << off[0] << off[1] << off[2] << off[3]);
  s.Label("simd " + target);
  std::vector<u128> want, got;
  std::vector<char> wb, gb;
  if (in.levels > 0 && s.Chance(1, 4)) Neighbour(s, in);
  Run(s, in, portable, inplace, off, &got, &gb);
  if (in.levels == 0) return;  // output is not defined
  Reference(in, &want, &wb);
  for (int64_t i = 0; i < in.n; i++) {
    REQUIRE(got[i] == want[i]) << "seed " << i << " of " << in.n << " is " << pbt::Str128(got[i]) << ", expected " << pbt::Str128(want[i]);
    REQUIRE((bool)gb[i] == (bool)wb[i]) << "control bit " << i << " of " << in.n << " is " << (int)gb[i];
  }
  s.NonTrivial(in.n >= 2 && in.levels >= 2 && (in.paths[0] >> in.shift) != (in.paths[1] >> in.shift));
  if (in.per_seed) s.Label("corrections per seed");
  s.Label(in.n % 4 ? "partial vector" : "whole vectors");
}
}  // namespace

CASE(expansion, 30000, 900000) { Case(s, 300, 16); }
CASE(large, 60, 1500) { Case(s, 20000, 4); }
CASE(deep, 4000, 120000) { Case(s, 24, 128); }

// All variants on one input, each against the portable code.
CASE(variants, 6000, 200000) {
  Input in;
  DrawInput(s, &in, 300, 12);
  if (in.levels == 0) in.levels = 1, in.cs.clear(), in.cl.clear(), in.cr.clear();
  while ((int)in.cs.size() < in.ncw()) { in.cs.push_back(in.kl & ~(u128)1); in.cl.push_back(1); in.cr.push_back(0); }
  NOTE(s, "seeds " << in.n << " levels " << in.levels << " shift " << in.shift << (in.per_seed ? " per-seed" : ""));
  size_t off[4] = {0, 0, 0, 0};
  std::vector<u128> want, got;
  std::vector<char> wb, gb;
  Run(s, in, true, false, off, &want, &wb);
  hwy::SetSupportedTargetsForTest(0);
  hwy::GetChosenTarget().Update(hwy::SupportedTargets());
  for (int64_t t : hwy::SupportedAndGeneratedTargets()) {
    hwy::SetSupportedTargetsForTest(t);
    hwy::GetChosenTarget().Update(hwy::SupportedTargets());
    Run(s, in, false, false, off, &got, &gb);
    REQUIRE(got == want && gb == wb) << hwy::TargetName(t) << " differs from the portable code";
    hwy::SetSupportedTargetsForTest(0);
    hwy::GetChosenTarget().Update(hwy::SupportedTargets());
  }
  s.NonTrivial(in.n >= 2);
}

// A number of corrections that fits neither layout is refused.
CASE(bad_counts, 4000, 100000) {
  PickTarget(s);
  Input in;
  DrawInput(s, &in, 40, 8);
  int n = (int)s.Int(0, 400);
  bool bad = n != in.levels && n != in.levels * in.n;
  if (!bad) return;
  NOTE(s, "seeds " << in.n << " levels " << in.levels << " corrections " << n);
  auto pl = D::Aes128FixedKeyHash::Create(A(in.kl)), pr = D::Aes128FixedKeyHash::Create(A(in.kr));
  std::vector<absl::uint128> a(in.n + 1), p(in.n + 1), o(in.n + 1), c(500);
  std::unique_ptr<bool[]> b(new bool[in.n + 1]()), ob(new bool[in.n + 1]()), l(new bool[500]()), r(new bool[500]());
  auto st = I::EvaluateSeeds(in.n, in.levels, n, a.data(), b.get(), p.data(), in.shift, c.data(), l.get(), r.get(), *pl, *pr, o.data(), ob.get());
  REQUIRE(st.code() == absl::StatusCode::kInvalidArgument) << n << " corrections for " << in.n << " seeds and " << in.levels << " levels: " << st;
  s.NonTrivial();
}

// More than 2^31 bytes of seeds, in place, one level.
HUGE_CASE(huge, 1, 4) {
  std::string target = PickTarget(s);
  u128 kl = s.Uni128(), kr = s.Uni128();
  auto pl = D::Aes128FixedKeyHash::Create(A(kl)), pr = D::Aes128FixedKeyHash::Create(A(kr));
  REQUIRE(pl.ok() && pr.ok());
  int64_t n = (1 << 27) + (int64_t)s.Draw(40);
  uint64_t salt = s.Draw(~0ull);
  absl::uint128 cs = A(s.Uni128() & ~(u128)1);
  bool cl = s.Bool(), cr = s.Bool();
  std::vector<absl::uint128> seeds(n), paths(n);
  std::unique_ptr<bool[]> bits(new bool[n]);
  auto at = [&](uint64_t i) { return (u128)pbt::WordAt(salt, i) << 64 | i; };
  auto path = [&](uint64_t i) { return pbt::WordAt(salt + 2, i) & 1; };
  auto bit = [&](uint64_t i) { return pbt::WordAt(salt + 4, i) >> 9 & 1; };
  for (int64_t i = 0; i < n; i++) seeds[i] = A(at(i)), paths[i] = path(i), bits[i] = bit(i);
  NOTE(s, target << ": " << n << " seeds, one level");
  auto st = I::EvaluateSeeds(n, 1, 1, seeds.data(), bits.get(), paths.data(), 0, &cs, &cl, &cr, *pl, *pr, seeds.data(), bits.get());
  REQUIRE(st.ok()) << st;
  auto l = ref::Aes128::FromInt(kl), r = ref::Aes128::FromInt(kr);
  for (uint64_t i : pbt::Positions(s, n, 100000)) {
    u128 e = ref::Mmo(path(i) ? r : l, at(i));
    bool t = e & 1;
    e &= ~(u128)1;
    if (bit(i)) { e ^= U(cs); t ^= path(i) ? cr : cl; }
    REQUIRE(U(seeds[i]) == e && bits[i] == t) << "seed " << i << " of " << n;
  }
  s.NonTrivial();
}
