// C01: a point function's two shares recombine to beta at alpha and to zero
// everywhere else, for every output type, domain size, alpha and beta.
// LIBS: core
// SRCS: dpf_types.cc dpf_types_0.cc dpf_types_1.cc dpf_types_2.cc dpf_types_3.cc
#include "dpf_gen.h"
#include "pbt.h"
using namespace vt;
using pbt::Src;

const char* const pbt::kRule =
    "A case draws an output type (43), a log domain size in 0..128, a security parameter, alpha and beta "
    "(edge-weighted), a key-generation random stream and a SIMD variant, generates both keys and recombines the "
    "two evaluations in an independent model of the type's group. Non-trivial: the domain has at least two points, "
    "beta is not zero, and the special point and at least one other point were checked.";
const std::vector<std::string> pbt::kAssumptions = {
    "the library's RAND_bytes is replaced by a seeded stream", "BoringSSL's AES and the installed Highway are trusted"};

static GenOptions Opt(int max_log) {
  GenOptions o;
  o.max_levels = 1;
  o.max_log = max_log;
  return o;
}

static void CheckPoint(Src& s, const Config& c, u128 x, const Leaves& a, const Leaves& b) {
  Leaves got = Add(c.types[0]->leaves, a, b);
  REQUIRE(got == c.Expected(0, x)) << "at x=" << pbt::Str128(x) << " shares " << Show(a) << " and " << Show(b)
                                   << " recombine to " << Show(got) << ", expected " << Show(c.Expected(0, x));
}

// Point evaluation over domains of any size.
CASE(points, 60000, 1500000) {
  Config c = DrawConfig(s, Opt(128));
  std::vector<absl::uint128> xs;
  xs.push_back(A(c.alpha));
  int n = (int)s.Small(0, 20);
  for (int i = 0; i < n; i++) xs.push_back(A(DrawPoint(s, c, 0)));
  auto a = c.types[0]->at(*c.dpf, c.key[0], 0, xs), b = c.types[0]->at(*c.dpf, c.key[1], 0, xs);
  REQUIRE(a.ok() && b.ok()) << a.status() << " " << b.status();
  REQUIRE(a->size() == xs.size() && b->size() == xs.size());
  bool other = false;
  for (size_t i = 0; i < xs.size(); i++) {
    CheckPoint(s, c, U(xs[i]), (*a)[i], (*b)[i]);
    other |= U(xs[i]) != c.alpha;
  }
  s.NonTrivial(c.logs[0] > 0 && c.beta[0] != Zero(*c.types[0]) && other);
  if (c.logs[0] > 64) s.Label("domain above 2^64");
}

// Expansion of the whole domain.
static void FullDomain(Src& s, int max_log, bool at_most) {
  GenOptions o = Opt(max_log);
  if (!at_most) o.min_log = max_log;
  Config c = DrawConfig(s, o);
  Results r[2];
  for (int p = 0; p < 2; p++) {
    auto ctx = c.dpf->CreateEvaluationContext(c.key[p]);
    REQUIRE(ctx.ok()) << ctx.status();
    auto e = s.Bool() ? c.types[0]->next(*c.dpf, {}, *ctx) : c.types[0]->until(*c.dpf, 0, {}, *ctx);
    REQUIRE(e.ok()) << e.status();
    REQUIRE(e->size() == (size_t)1 << c.logs[0]) << "got " << e->size() << " values";
    r[p] = std::move(*e);
  }
  for (size_t x = 0; x < r[0].size(); x++) CheckPoint(s, c, x, r[0][x], r[1][x]);
  s.NonTrivial(c.logs[0] > 0 && c.beta[0] != Zero(*c.types[0]));
}

// Keys made through the typed interface; evaluated on the same instance and on
// a second instance that has never seen the type.
CASE(typed_keys, 15000, 300000) {
  Config c;
  std::string target = PickTarget(s);
  DrawParams(s, Opt(128), &c);
  auto d = DistributedPointFunction::Create(c.params[0]);
  REQUIRE(d.ok()) << d.status();
  c.alpha = s.Edge128(c.MaxPoint(0));
  c.beta.push_back(DrawValue(s, *c.types[0]));
  NOTE(s, "simd=" << target << " " << Show(c));
  pbt::SeedRand(s.Draw(~0ull));
  auto k = c.types[0]->gen(**d, A(c.alpha), c.beta[0]);
  REQUIRE(k.ok()) << k.status();
  auto d2 = DistributedPointFunction::Create(c.params[0]);
  REQUIRE(d2.ok());
  std::vector<absl::uint128> xs = {A(c.alpha), A(DrawPoint(s, c, 0)), A(DrawPoint(s, c, 0))};
  bool wire = s.Bool();
  DpfKey k0 = k->first, k1 = k->second;
  if (wire) {
    std::string w0 = k0.SerializeAsString(), w1 = k1.SerializeAsString();
    k0.Clear(); k1.Clear();
    REQUIRE(k0.ParseFromString(w0) && k1.ParseFromString(w1));
  }
  auto a = c.types[0]->at(**d, k0, 0, xs), b = c.types[0]->at(**d2, k1, 0, xs);
  REQUIRE(a.ok() && b.ok()) << a.status() << " " << b.status();
  for (size_t i = 0; i < xs.size(); i++) CheckPoint(s, c, U(xs[i]), (*a)[i], (*b)[i]);
  s.NonTrivial(c.logs[0] > 0 && c.beta[0] != Zero(*c.types[0]) && (xs[1] != xs[0] || xs[2] != xs[0]));
}

// Large batches of points (beyond the internal batching of 64).
CASE(big_batches, 1500, 30000) {
  Config c = DrawConfig(s, Opt(128));
  std::vector<absl::uint128> xs;
  int n = (int)s.Int(1, 400);
  uint64_t spread = s.Draw(~0ull);
  pbt::Rng r{spread};
  for (int i = 0; i < n; i++) {
    u128 x = ((u128)r.Next() << 64 | r.Next()) & c.MaxPoint(0);
    if (i % 17 == 3) x = c.alpha;
    if (i % 17 == 9) x = c.alpha ^ (((u128)1 << (r.Next() % 128)) & c.MaxPoint(0));
    xs.push_back(A(x));
  }
  auto a = c.types[0]->at(*c.dpf, c.key[0], 0, xs), b = c.types[0]->at(*c.dpf, c.key[1], 0, xs);
  REQUIRE(a.ok() && b.ok()) << a.status() << " " << b.status();
  REQUIRE(a->size() == xs.size() && b->size() == xs.size());
  for (size_t i = 0; i < xs.size(); i++) CheckPoint(s, c, U(xs[i]), (*a)[i], (*b)[i]);
  s.NonTrivial(n > 64 && c.logs[0] > 0);
}

CASE(full_domain, 15000, 300000) { FullDomain(s, (int)s.Small(0, 13), true); }
CASE(large_domain, 40, 800) { FullDomain(s, (int)s.Int(13, 18), false); }

CASE(huge_batches, 60, 1200) {
  Config c = DrawConfig(s, Opt(128));
  int n = (int)s.Small(400, 12000);
  pbt::Rng r{s.Draw(~0ull)};
  std::vector<absl::uint128> xs;
  for (int i = 0; i < n; i++) {
    u128 x = ((u128)r.Next() << 64 | r.Next()) & c.MaxPoint(0);
    if (r.Next() % 11 == 3) x = c.alpha;
    xs.push_back(A(x));
  }
  auto a = c.types[0]->at(*c.dpf, c.key[0], 0, xs), b = c.types[0]->at(*c.dpf, c.key[1], 0, xs);
  REQUIRE(a.ok() && b.ok()) << a.status() << " " << b.status();
  REQUIRE(a->size() == xs.size() && b->size() == xs.size());
  for (size_t i = 0; i < xs.size(); i++) CheckPoint(s, c, U(xs[i]), (*a)[i], (*b)[i]);
  s.NonTrivial(c.logs[0] > 0 && c.beta[0] != Zero(*c.types[0]));
}

// All 2^31 points of a domain at once.
HUGE_CASE(huge_domain, 0, 1) {
  DpfParameters p;
  p.set_log_domain_size(31);
  p.mutable_value_type()->mutable_integer()->set_bitsize(8);
  auto d = DistributedPointFunction::Create(p);
  REQUIRE(d.ok()) << d.status();
  uint64_t alpha = s.Edge(0x7fffffff);
  uint8_t beta = (uint8_t)s.Int(1, 255);
  NOTE(s, "2^31 points, alpha=" << alpha << " beta=" << (int)beta);
  auto k = (*d)->GenerateKeys(absl::uint128(alpha), beta);
  REQUIRE(k.ok()) << k.status();
  std::vector<uint8_t> r[2];
  for (int i = 0; i < 2; i++) {
    auto ctx = (*d)->CreateEvaluationContext(i ? k->second : k->first);
    REQUIRE(ctx.ok()) << ctx.status();
    auto e = (*d)->EvaluateNext<uint8_t>({}, *ctx);
    REQUIRE(e.ok()) << e.status();
    REQUIRE(e->size() == 1ull << 31) << e->size() << " outputs";
    r[i] = std::move(*e);
  }
  for (uint64_t x = 0; x < 1ull << 31; x++)
    REQUIRE((uint8_t)(r[0][x] + r[1][x]) == (x == alpha ? beta : 0)) << "at x=" << x << " shares recombine to " << (int)(uint8_t)(r[0][x] + r[1][x]);
  s.NonTrivial();
}
