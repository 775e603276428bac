// C14: hash families: deterministic, in range, seeded functions are the
// documented hash of seed || input, and near-uniform.
// LIBS: hashing
#include <algorithm>
#include <climits>

#include "farmhash/farmhash.h"
#include "openssl/sha.h"
#include "pbt.h"
#include "pir/hashing/farm_hash_family.h"
#include "pir/hashing/hash_family.h"
#include "pir/hashing/hash_family_config.h"
#include "pir/hashing/sha256_hash_family.h"
#include "ref_sha256.h"
using namespace distributed_point_functions;
using pbt::Src;
using pbt::u128;

const char* const pbt::kRule =
    "A case draws a family (SHA-256, FarmHash, or from a configuration), a chain of 0-3 wrapping seeds (with NULs, "
    "digits and empty strings), a number of functions, inputs of 0-5000 bytes and upper bounds in [1, 2^31-1], and "
    "compares every hash with an independent model; copies, repeated calls, interleaved use and destroyed seed "
    "strings must not matter. Non-trivial: an upper bound above 1 and a non-empty seed or input.";
const std::vector<std::string> pbt::kAssumptions = {"the installed FarmHash library is trusted", "the reference SHA-256 is checked on a known digest"};

static int DrawBound(Src& s) { return 1 + (int)s.Edge((uint64_t)INT_MAX - 1); }
static std::string DrawInput(Src& s) {
  switch (s.Draw(3)) {
    case 0: return s.Str(12);
    case 1: return s.Blob(s.Draw(200));
    case 2: return s.Blob(s.Pick({55, 56, 63, 64, 65, 119, 120, 127, 128}));
    default: return s.Blob(s.Chance(1, 10) ? s.Draw(s.Chance(1, 60) ? 200000 : 5000) : s.Draw(64));
  }
}
// Model: the hash of `input` with full seed `seed`.
static int Ref(bool farm, const std::string& seed, const std::string& input, int bound) {
  if (farm) {
    auto sd = util::Hash128(seed.data(), seed.size());
    auto h = util::Hash128WithSeed(input.data(), input.size(), sd);
    u128 x = ((u128)h.second << 64) | h.first;
    return (int)(x % (u128)bound);
  }
  return ref::DigestMod(ref::Sha256(seed + input), bound);
}

CASE(values, 60000, 1500000) {
  REQUIRE(ref::ShaSelfTest());
  int kind = (int)s.Draw(2);  // 0 sha, 1 farm, 2 config
  bool farm = kind == 1;
  std::string full;
  HashFamily fam;
  {
    std::string cs = s.Str(10);
    if (kind == 2) {
      HashFamilyConfig cfg;
      cfg.set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
      if (cs.empty()) cs = "x";
      cfg.set_seed(cs);
      auto f = CreateHashFamilyFromConfig(cfg);
      REQUIRE(f.ok()) << f.status();
      fam = std::move(*f);
      full = cs;
    } else if (farm) {
      fam = FarmHashFamily();
    } else {
      fam = SHA256HashFamily();
    }
  }
  int wraps = (int)s.Small(0, 3);
  for (int i = 0; i < wraps; i++) {
    // Each wrap prepends its seed to the seeds it is given, so the innermost comes first.
    std::string w = s.Bool() ? s.Str(6) : s.Blob(s.Draw(40));
    fam = WrapWithSeed(std::move(fam), w);
    full += w;
    std::fill(w.begin(), w.end(), '#');
  }
  std::vector<HashFunction> fns;
  std::vector<std::string> seeds;
  if (s.Bool()) {
    int n = (int)s.Small(0, s.Chance(1, 40) ? 2500 : 12);
    // The family may be consumed; functions are seeded with "0", "1", ...
    auto v = CreateHashFunctions(std::move(fam), n);
    REQUIRE(v.ok()) << v.status();
    REQUIRE((int)v->size() == n);
    fns = std::move(*v);
    for (int i = 0; i < n; i++) seeds.push_back(full + std::to_string(i));
  } else {
    int n = (int)s.Small(1, 4);
    for (int i = 0; i < n; i++) {
      std::string sd = s.Bool() ? s.Str(8) : s.Blob(s.Draw(100));
      fns.push_back(fam(sd));
      seeds.push_back(full + sd);
      std::fill(sd.begin(), sd.end(), '#');
    }
  }
  if (fns.empty()) return;
  int calls = (int)s.Int(1, 6);
  for (int c = 0; c < calls; c++) {
    size_t i = s.Chance(1, 4) ? fns.size() - 1 : s.Draw(fns.size() - 1);
    std::string in = DrawInput(s);
    int bound = DrawBound(s);
    NOTE(s, (farm ? "farm" : "sha256") << " seed=" << pbt::Hex(seeds[i]) << " input=" << pbt::Hex(in) << " bound=" << bound);
    int got = fns[i](in, bound), again = fns[i](in, bound);
    REQUIRE(got == again) << "not deterministic: " << got << " then " << again;
    REQUIRE(got >= 0 && got < bound) << "out of range: " << got;
    int want = Ref(farm, seeds[i], in, bound);
    REQUIRE(got == want) << "got " << got << " expected " << want;
    s.NonTrivial(bound > 1 && (!in.empty() || !seeds[i].empty()));
    if (!in.empty() && s.Chance(1, 4)) {
      // Another input in the same memory.
      std::string was = in;
      in[s.Draw(in.size() - 1)] ^= (char)(1 << s.Int(0, 7));
      REQUIRE(fns[i](in, bound) == Ref(farm, seeds[i], in, bound)) << "input " << pbt::Hex(was) << " changed in place to " << pbt::Hex(in);
      in = was;
    }
    if (s.Chance(1, 4)) {
      HashFunction moved = std::move(fns[i]);
      REQUIRE(moved(in, bound) == want) << "moved function differs";
      fns[i] = std::move(moved);
    }
  }
}

// Copies of the concrete functions are independent of the original's life.
CASE(copies, 10000, 200000) {
  std::string seed = s.Blob(s.Draw(130)), in = DrawInput(s);
  int bound = DrawBound(s);
  auto* f = new SHA256HashFunction(seed);
  SHA256HashFunction g = *f;
  int a = (*f)(in, bound);
  delete f;
  REQUIRE(g(in, bound) == a && a == Ref(false, seed, in, bound));
  auto* ff = new FarmHashFunction(seed);
  FarmHashFunction gg = *ff;
  a = (*ff)(in, bound);
  delete ff;
  REQUIRE(gg(in, bound) == a && a == Ref(true, seed, in, bound));
  NOTE(s, "seed=" << pbt::Hex(seed) << " input=" << pbt::Hex(in) << " bound=" << bound);
  s.NonTrivial(bound > 1);
}

CASE(rejections, 3000, 30000) {
  HashFamilyConfig cfg;
  int fam = (int)s.Int(0, 4);
  std::string seed = s.Str(4);
  cfg.set_hash_family((HashFamilyConfig::HashFamily)(fam == 4 ? -1 : fam));
  cfg.set_seed(seed);
  auto f = CreateHashFamilyFromConfig(cfg);
  bool valid = fam == 1 && !seed.empty();
  REQUIRE(f.ok() == valid) << "family " << fam << " seed size " << seed.size() << ": " << f.status();
  if (!valid) REQUIRE(f.status().code() == absl::StatusCode::kInvalidArgument) << f.status();
  int n = (int)s.Int(-5, 5);
  auto v = CreateHashFunctions(SHA256HashFamily(), n);
  REQUIRE(v.ok() == (n >= 0)) << n;
  if (n < 0) REQUIRE(v.status().code() == absl::StatusCode::kInvalidArgument);
  NOTE(s, "family=" << fam << " seed=" << pbt::Hex(seed) << " n=" << n);
  s.NonTrivial(!valid || n < 0);
}

// Distribution: each function spreads inputs over its range, and two functions
// of one family are unrelated.
CASE(spread, 400, 6000) {
  bool farm = s.Bool();
  HashFamily fam;
  if (farm) fam = FarmHashFamily(); else fam = SHA256HashFamily();
  fam = WrapWithSeed(std::move(fam), s.Blob(s.Int(1, 20)));
  auto v = CreateHashFunctions(std::move(fam), 2);
  REQUIRE(v.ok());
  int m = (int)s.Int(2, 40);
  const int n = 4000;
  std::vector<int> c0(m), c1(m), diff(m);
  std::string prefix = s.Str(6);
  for (int i = 0; i < n; i++) {
    std::string in = prefix + std::to_string(i);
    int a = (*v)[0](in, m), b = (*v)[1](in, m);
    REQUIRE(a >= 0 && a < m && b >= 0 && b < m);
    c0[a]++; c1[b]++; diff[(a - b + m) % m]++;
  }
  auto chi = [&](const std::vector<int>& c) {
    double e = (double)n / m, x = 0;
    for (int k : c) x += (k - e) * (k - e) / e;
    return x;
  };
  // 10 standard deviations of a chi-square with m-1 degrees of freedom, and a margin.
  double limit = (m - 1) + 10 * std::sqrt(2.0 * (m - 1)) + 30;
  NOTE(s, (farm ? "farm" : "sha256") << " m=" << m << " chi2=" << chi(c0) << "," << chi(c1) << "," << chi(diff));
  REQUIRE(chi(c0) < limit && chi(c1) < limit) << "not uniform over " << m;
  REQUIRE(chi(diff) < limit) << "two functions of the family are related";
  s.NonTrivial(true);
}

// Seeds and inputs beyond 2^30 and 2^31 bytes.
HUGE_CASE(huge, 2, 5) {
  bool farm = s.Chance(1, 3), in_seed = s.Chance(1, 3);
  uint64_t n = s.Pick<uint64_t>({1ull << 30, (1ull << 30) + 1, (1ull << 30) + 64, (1ull << 31) - 1, (1ull << 31) + 3, (1ull << 31) + (1 << 30)}) + s.Draw(70), salt = s.Draw(~0ull);
  int bound = DrawBound(s);
  std::string other = s.Str(6), big(n, '\0');
  pbt::FillAt(salt, &big[0], n);
  const std::string &seed = in_seed ? big : other, &in = in_seed ? other : big;
  NOTE(s, (farm ? "farm" : "sha256") << (in_seed ? " seed" : " input") << " of " << n << " bytes, bound " << bound);
  int got = farm ? FarmHashFunction(seed)(in, bound) : SHA256HashFunction(seed)(in, bound);
  int want;
  if (farm) {
    want = Ref(farm, seed, in, bound);
  } else {
    // The library's own SHA-256, fed in pieces of 1 MiB.
    SHA256_CTX ctx;
    std::array<uint8_t, 32> d;
    SHA256_Init(&ctx);
    for (const std::string* x : {&seed, &in})
      for (size_t i = 0; i < x->size(); i += 1 << 20) SHA256_Update(&ctx, x->data() + i, std::min<size_t>(1 << 20, x->size() - i));
    SHA256_Final(d.data(), &ctx);
    want = ref::DigestMod(d, bound);
  }
  REQUIRE(got == want) << "got " << got << ", expected " << want;
  s.NonTrivial(bound > 1);
}
