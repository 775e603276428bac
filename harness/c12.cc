// C12: batched comparison evaluation equals one-by-one; bad input is refused.
// LIBS: dcf
// SRCS: dpf_types.cc dpf_types_0.cc dpf_types_1.cc dpf_types_2.cc dpf_types_3.cc dcf_types.cc dcf_types_0.cc dcf_types_1.cc dcf_types_2.cc dcf_types_3.cc
#include <cmath>
#include <limits>
#include "dcf_types.h"
#include <algorithm>
#include "pbt.h"
using namespace vt;
using pbt::Src;

const char* const pbt::kRule =
    "A case draws a comparison function (43 output types, 1..128 bits), several key pairs and a batch (any order, repeated "
    "keys, keys of both parties, spans of keys or of pointers, used output) and compares with one-by-one evaluation; or a "
    "batch, parameter message, value or key that is invalid in a documented way. Non-trivial: a batch of two or more "
    "different keys; for refusals, an input that differs from a valid one.";
const std::vector<std::string> pbt::kAssumptions = {"the library's RAND_bytes is replaced by a seeded stream"};

static std::vector<DcfKey> DrawKeyPool(Src& s, const Dcf& d) {
  std::vector<DcfKey> pool;
  pbt::SeedRand(s.Draw(~0ull));
  for (int n = (int)s.Small(1, 4); n > 0; n--) {
    auto k = d.dcf->GenerateKeys(A(s.Edge128(d.Max())), ValueProto(d.type->shape, DrawValue(s, *d.type)));
    REQUIRE(k.ok()) << k.status();
    pool.push_back(k->first);
    pool.push_back(k->second);
  }
  return pool;
}

static void Batches(Src& s, int most) {
  PickTarget(s);
  Dcf d;
  DrawDcf(s, 128, &d);
  auto pool = DrawKeyPool(s, d);
  int n = (int)s.Small(0, d.log > 20 ? most / 6 : most);
  std::vector<absl::uint128> xs;
  std::vector<int> which;
  std::vector<const DcfKey*> ptrs;
  std::vector<DcfKey> keys;
  u128 last = 0;
  for (int i = 0; i < n; i++) {
    which.push_back((int)s.Draw(pool.size() - 1));
    last = s.Chance(1, 3) ? last : NearPoint(s, last, d.Max());
    xs.push_back(A(last));
    ptrs.push_back(&pool[which[i]]);
    keys.push_back(pool[which[i]]);
  }
  NOTE(s, d.type->name << " 2^" << d.log << " batch of " << n << " over " << pool.size() << " keys");
  Results want;
  for (int i = 0; i < n; i++) {
    auto r = d.ops->eval(*d.dcf, pool[which[i]], U(xs[i]));
    REQUIRE(r.ok()) << r.status();
    want.push_back(*r);
  }
  auto same = [&](const Results& r, const char* how) {
    REQUIRE(r.size() == (size_t)n) << how << ": " << r.size() << " results";
    for (int i = 0; i < n; i++) REQUIRE(r[i] == want[i]) << how << ": index " << i << " (x=" << pbt::Str128(U(xs[i])) << ") gives " << Show(r[i]) << ", alone " << Show(want[i]);
  };
  auto a = d.ops->batch(*d.dcf, keys, xs);
  REQUIRE(a.ok()) << a.status();
  same(*a, "keys");
  auto b = d.ops->batch_ptr(*d.dcf, ptrs, xs);
  REQUIRE(b.ok()) << b.status();
  same(*b, "pointers");
  Results out;
  for (int i = 0; i < n; i++) out.push_back(DrawValue(s, *d.type));
  absl::Status st = d.ops->batch_out(*d.dcf, ptrs, xs, &out);
  REQUIRE(st.ok()) << st;
  same(out, "into used output");
  if (n > 0 && s.Bool()) {
    // The same objects again with other contents.
    std::rotate(xs.begin(), xs.begin() + 1, xs.end());
    std::swap(pool[0], pool[s.Draw(pool.size() - 1)]);
    for (int i = 0; i < n; i++) {
      keys[i] = pool[which[i]];
      DcfKey copy = keys[i];
      auto r = d.ops->eval(*d.dcf, copy, U(xs[i]));
      REQUIRE(r.ok()) << r.status();
      want[i] = *r;
    }
    auto a2 = d.ops->batch(*d.dcf, keys, xs);
    REQUIRE(a2.ok()) << a2.status();
    same(*a2, "keys, changed in place");
    auto b2 = d.ops->batch_ptr(*d.dcf, ptrs, xs);
    REQUIRE(b2.ok()) << b2.status();
    same(*b2, "pointers, changed in place");
  }
  bool differ = false;
  for (int i = 1; i < n; i++) differ |= which[i] != which[0];
  s.NonTrivial(differ);
}

CASE(batches, 6000, 200000) { Batches(s, 70); }
CASE(large_batches, 40, 1000) { Batches(s, 2400); }

static void WantInvalid(const absl::Status& st, const char* what) {
  REQUIRE(!st.ok()) << what << " accepted";
  REQUIRE(st.code() == absl::StatusCode::kInvalidArgument) << what << " refused with " << st;
}

// Sizes that do not match, points outside the domain.
CASE(bad_batches, 6000, 200000) {
  Dcf d;
  DrawDcf(s, 128, &d);
  auto pool = DrawKeyPool(s, d);
  int nk = (int)s.Small(0, 6), nx = nk, no = nk, how = (int)s.Draw(2);
  if (how == 0) nx = (int)s.Small(0, 6);
  if (how == 1) no = (int)s.Small(0, 6);
  std::vector<const DcfKey*> ptrs;
  std::vector<DcfKey> keys;
  for (int i = 0; i < nk; i++) { ptrs.push_back(&pool[s.Draw(pool.size() - 1)]); keys.push_back(*ptrs.back()); }
  std::vector<absl::uint128> xs;
  bool outside = false;
  for (int i = 0; i < nx; i++) {
    u128 x = s.Edge128(d.Max());
    if (how == 2 && d.log < 128 && s.Chance(1, 3)) {
      x |= (u128)1 << s.Int(d.log, 127);
      outside = true;
    }
    xs.push_back(A(x));
  }
  NOTE(s, d.type->name << " 2^" << d.log << " " << nk << " keys, " << nx << " points, " << no << " outputs" << (outside ? ", some outside" : ""));
  Results out(no, Zero(*d.type));
  absl::Status st = d.ops->batch_out(*d.dcf, ptrs, xs, &out);
  REQUIRE(out.size() == (size_t)no);
  bool bad2 = nk != nx || outside, bad3 = bad2 || no != nk;
  if (bad3) WantInvalid(st, "batch with output"); else REQUIRE(st.ok()) << st;
  auto r = d.ops->batch(*d.dcf, keys, xs), q = d.ops->batch_ptr(*d.dcf, ptrs, xs);
  if (bad2) { WantInvalid(r.status(), "batch"); WantInvalid(q.status(), "batch of pointers"); }
  else REQUIRE(r.ok() && q.ok()) << r.status() << q.status();
  if (nk > 0 && nx > 0) {
    auto e = d.ops->eval(*d.dcf, keys[0], U(xs[0]));
    if (U(xs[0]) > d.Max()) WantInvalid(e.status(), "point outside the domain"); else REQUIRE(e.ok()) << e.status();
  }
  s.NonTrivial(bad3);
}

CASE(bad_generation, 6000, 200000) {
  Dcf d;
  DrawDcf(s, 128, &d);
  u128 alpha = s.Edge128(d.Max());
  Value beta = ValueProto(d.type->shape, DrawValue(s, *d.type));
  bool bad = false;
  const TypeOps& other = s.Pick(Types());
  switch (s.Draw(2)) {
    case 0: if (d.log < 128) { alpha |= (u128)1 << s.Int(d.log, 127); bad = true; } break;
    case 1:
      beta = ValueProto(other.shape, DrawValue(s, other));
      bad = !d.type->from_value(beta).ok();   // decided by C07
      break;
    default: {
      // One component out of range.
      Leaves l = DrawValue(s, *d.type);
      size_t i = s.Draw(l.size() - 1);
      u128 m = MaxOf(d.type->leaves[i]);
      if (m != ~(u128)0) { l[i] = m + 1 + s.Edge128(~(u128)0 - m - 1); bad = true; }
      beta = ValueProto(d.type->shape, l);
    }
  }
  NOTE(s, d.type->name << " 2^" << d.log << " alpha=" << pbt::Str128(alpha) << " beta=" << beta.ShortDebugString());
  auto k = d.dcf->GenerateKeys(A(alpha), beta);
  if (bad) WantInvalid(k.status(), "alpha or beta"); else REQUIRE(k.ok()) << k.status();
  s.NonTrivial(bad);
}

CASE(parameters, 20000, 600000) {
  const TypeOps& t = s.Pick(Types());
  DcfParameters p = DcfParams((int)s.Int(1, std::min(20, MaxLogDomain(t) + 1)), t, 0);
  bool valid = true, known = true;
  auto* q = p.mutable_parameters();
  switch (s.Draw(6)) {
    case 0: { int l = s.Chance(1, 2) ? (int)s.Int(-2, 132) : (int)(int32_t)s.Edge(0xffffffff); q->set_log_domain_size(l); valid = l >= 1 && l <= 128; known = l <= MaxLogDomain(t) + 1 || l > 128; break; }
    case 1: q->clear_value_type(); valid = false; break;
    case 2: q->mutable_value_type()->clear_type(); valid = false; break;
    case 3: { int b = s.Chance(1, 2) ? (int)s.Pick({0, 1, 2, 4, 7, 9, 24, 127, 129, 256, -8}) : (int)(int32_t)s.Edge(0xffffffff);
      bool pow2 = b > 0 && (b & (b - 1)) == 0 && b <= 128;
      (s.Bool() ? q->mutable_value_type()->mutable_integer() : q->mutable_value_type()->mutable_xor_wrapper())->set_bitsize(b);
      valid = pow2 && b >= 8; known = !pow2 || b >= 8; break; }
    case 4: { auto* m = q->mutable_value_type()->mutable_int_mod_n();
      int b = (int)s.Pick({8, 16, 32, 64, 128});
      u128 max = b == 128 ? ~(u128)0 : ((u128)1 << b) - 1, n = s.Bool() ? s.Edge128(max) : max + s.Int(-1, 2);
      m->mutable_base_integer()->set_bitsize(b);
      if (s.Chance(1, 8)) { valid = false; m->clear_modulus(); } else SetInteger(m->mutable_modulus(), n);
      if (n == 0 || n > max) valid = false;
      known = !valid;  // whether the security level can be met is judged by C06
      if (b == 128 && n == 0) known = false;
      break; }
    case 5: { double x = s.Pick({-1.0, -0.5, 128.5, 1000.0, 40.0, 1.0, 0.5, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity()});
      q->set_security_parameter(x);
      valid = x >= 0 && x <= 128; known = !valid || MaxLogDomain(t) == 128; break; }
    default: break;
  }
  NOTE(s, p.ShortDebugString());
  auto f = DistributedComparisonFunction::Create(p);
  if (known) {
    if (valid) REQUIRE(f.ok()) << "valid parameters refused: " << f.status();
    else WantInvalid(f.status(), "invalid parameters");
  }
  s.Label(f.ok() ? "accepted" : "refused");
  s.NonTrivial(!valid);
}

// Keys with parts removed, added or exchanged.
CASE(bad_keys, 8000, 300000) {
  Dcf d;
  DrawDcf(s, 40, &d);
  auto pool = DrawKeyPool(s, d);
  std::vector<DcfKey> keys;
  std::vector<absl::uint128> xs;
  int n = (int)s.Small(1, 5);
  for (int i = 0; i < n; i++) { keys.push_back(pool[s.Draw(pool.size() - 1)]); xs.push_back(A(s.Edge128(d.Max()))); }
  DcfKey& k = keys[s.Draw(n - 1)];
  auto* cw = k.mutable_key()->mutable_correction_words();
  bool bad = true;
  int how = (int)s.Draw(8);
  switch (how) {
    case 0: k.clear_key(); break;
    case 1: k.mutable_key()->clear_seed(); break;
    case 2: if (cw->size()) cw->RemoveLast(); else bad = false; break;
    case 3: cw->Add(); break;
    case 4: if (cw->size()) cw->Mutable(s.Draw(cw->size() - 1))->clear_seed(); bad = false; break;  // reads as a zero seed
    case 5: { int p = (int)(int32_t)s.Edge(0xffffffff); k.mutable_key()->set_party(p); bad = false; break; }  // other parties are not documented
    case 6: k.mutable_key()->clear_last_level_value_correction(); break;
    case 7: if (cw->size()) cw->Mutable(s.Draw(cw->size() - 1))->mutable_value_correction()->Clear(); bad = false; break;
    default: {
      auto* v = k.mutable_key()->mutable_last_level_value_correction();
      if (s.Bool()) *v->Add() = Value(v->Get(0)); else v->Mutable(s.Draw(v->size() - 1))->clear_value();
      break;
    }
  }
  NOTE(s, d.type->name << " 2^" << d.log << " change " << how << " in one of " << n << " keys");
  auto r = d.ops->batch(*d.dcf, keys, xs);
  if (bad) WantInvalid(r.status(), "malformed key");
  else if (!r.ok()) REQUIRE(r.status().code() == absl::StatusCode::kInvalidArgument) << r.status();
  s.Label("change " + std::to_string(how) + (r.ok() ? " accepted" : " refused"));
  s.NonTrivial(bad);
}
