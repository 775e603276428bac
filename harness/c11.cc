// C11: a comparison function's two shares recombine to beta exactly below alpha.
// LIBS: dcf
// SRCS: dpf_types.cc dpf_types_0.cc dpf_types_1.cc dpf_types_2.cc dpf_types_3.cc dcf_types.cc dcf_types_0.cc dcf_types_1.cc dcf_types_2.cc dcf_types_3.cc
#include "dcf_types.h"
#include "pbt.h"
using namespace vt;
using pbt::Src;

const char* const pbt::kRule =
    "A case draws an output type (43), a domain of 1..128 bits, alpha and beta (edge-weighted), a key-generation random "
    "stream and a SIMD variant, and recombines both keys' evaluations at points near alpha at every bit (or at all points "
    "of a small domain). Non-trivial: beta is not zero and points on both sides of alpha were checked.";
const std::vector<std::string> pbt::kAssumptions = {"the library's RAND_bytes is replaced by a seeded stream"};

static DcfKeys Gen(Src& s, const Dcf& d, u128 alpha, const Leaves& beta) {
  pbt::SeedRand(s.Draw(~0ull));
  auto k = s.Bool() ? d.dcf->GenerateKeys(A(alpha), ValueProto(d.type->shape, beta)) : d.ops->gen(*d.dcf, alpha, beta);
  REQUIRE(k.ok()) << "key generation failed: " << k.status();
  if (s.Chance(1, 8)) {
    DcfKey a, b;
    REQUIRE(a.ParseFromString(k->first.SerializeAsString()) && b.ParseFromString(k->second.SerializeAsString()));
    *k = {a, b};
  }
  return *k;
}
static void Check(const Dcf& d, u128 alpha, const Leaves& beta, u128 x, const Leaves& a, const Leaves& b) {
  Leaves want = x < alpha ? beta : Zero(*d.type), got = Add(d.type->leaves, a, b);
  REQUIRE(got == want) << "at x=" << pbt::Str128(x) << " shares " << Show(a) << " and " << Show(b) << " recombine to " << Show(got) << ", expected " << Show(want);
}

CASE(points, 12000, 400000) {
  std::string target = PickTarget(s);
  Dcf d;
  DrawDcf(s, 128, &d);
  u128 alpha = s.Edge128(d.Max());
  Leaves beta = DrawValue(s, *d.type);
  NOTE(s, d.type->name << " 2^" << d.log << " alpha=" << pbt::Str128(alpha) << " beta=" << Show(beta) << " " << target);
  s.Label("type " + d.type->name.substr(0, 48));
  s.Label("simd " + target);
  DcfKeys k = Gen(s, d, alpha, beta);
  // The two parties may use instances of their own.
  std::unique_ptr<DistributedComparisonFunction> other;
  if (s.Chance(1, 4)) other = std::move(*DistributedComparisonFunction::Create(d.params));
  bool below = false, above = false;
  for (int n = (int)s.Small(1, 12); n >= 0; n--) {
    u128 x = n == 0 ? alpha : NearPoint(s, alpha, d.Max());
    auto a = d.ops->eval(*d.dcf, k.first, x), b = d.ops->eval(other ? *other : *d.dcf, k.second, x);
    REQUIRE(a.ok() && b.ok()) << "at x=" << pbt::Str128(x) << ": " << a.status() << " " << b.status();
    Check(d, alpha, beta, x, *a, *b);
    (x < alpha ? below : above) = true;
  }
  if (d.log > 64) s.Label("domain above 2^64");
  s.NonTrivial(below && above && beta != Zero(*d.type));
}

// All points of a small domain, as one batch for each party.
CASE(whole_domain, 4000, 120000) {
  PickTarget(s);
  Dcf d;
  DrawDcf(s, 7, &d);
  u128 alpha = s.Edge128(d.Max());
  Leaves beta = DrawValue(s, *d.type);
  NOTE(s, d.type->name << " 2^" << d.log << " alpha=" << pbt::Str128(alpha) << " beta=" << Show(beta));
  DcfKeys k = Gen(s, d, alpha, beta);
  std::vector<absl::uint128> xs;
  for (u128 x = 0; x <= d.Max(); x++) xs.push_back(A(x));
  std::vector<const DcfKey*> ka(xs.size(), &k.first), kb(xs.size(), &k.second);
  auto a = d.ops->batch_ptr(*d.dcf, ka, xs), b = d.ops->batch_ptr(*d.dcf, kb, xs);
  REQUIRE(a.ok() && b.ok()) << a.status() << " " << b.status();
  for (size_t i = 0; i < xs.size(); i++) Check(d, alpha, beta, i, (*a)[i], (*b)[i]);
  s.NonTrivial(beta != Zero(*d.type) && alpha > 0);
}
