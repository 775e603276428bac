// C05: one party's key says nothing about alpha and beta, and every key is fresh.
// LIBS: dcf gates
// SRCS: dpf_types.cc dpf_types_0.cc dpf_types_1.cc dpf_types_2.cc dpf_types_3.cc dcf_types.cc dcf_types_0.cc dcf_types_1.cc dcf_types_2.cc dcf_types_3.cc
#include <algorithm>
#include <cmath>
#include <set>

#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dcf_types.h"
#include "gf2.h"
#include "pbt.h"
#include "secrecy.h"
using namespace vt;
using namespace secrecy;
using pbt::Src;

const char* const pbt::kRule =
    "A case draws a function (point, incremental, comparison or interval gate; 43 output types; fixed or varying alpha and "
    "beta) and generates hundreds to thousands of keys for it. All bits of one party's key, its shares, and the secrets of "
    "that generation must be linearly independent over GF(2) and pairwise uncorrelated, the message structure must be the "
    "same for all secrets, and no 128-bit block may occur twice. Non-trivial: at least 64 key bits and 200 generations.";
const std::vector<std::string> pbt::kAssumptions = {
    "the library's RAND_bytes is replaced by a seeded stream whose bytes stand for true randomness",
    "linear independence and pairwise correlation stand for secrecy; a leak that neither shows is not detected"};

namespace {
// What a key shows besides its numbers.
void IntShape(const Value::Integer& i, std::string* o) { *o += i.value_case() == Value::Integer::VALUE_NOT_SET ? "?" : "n"; }
void ValueShape(const Value& v, std::string* o) {
  switch (v.value_case()) {
    case Value::kInteger: *o += 'i'; IntShape(v.integer(), o); break;
    case Value::kIntModN: *o += 'm'; IntShape(v.int_mod_n(), o); break;
    case Value::kXorWrapper: *o += 'x'; IntShape(v.xor_wrapper(), o); break;
    case Value::kTuple: *o += '('; for (auto& e : v.tuple().elements()) ValueShape(e, o); *o += ')'; break;
    default: *o += '?';
  }
}
std::string KeyShape(const DpfKey& k) {
  std::string o = std::to_string(k.party()) + (k.has_seed() ? "s" : "-");
  for (auto& c : k.correction_words()) {
    o += c.has_seed() ? "|s" : "|-";
    for (auto& v : c.value_correction()) ValueShape(v, &o);
    o += std::to_string(c.GetReflection()->GetUnknownFields(c).field_count());
  }
  o += "||";
  for (auto& v : k.last_level_value_correction()) ValueShape(v, &o);
  o += std::to_string(k.GetReflection()->GetUnknownFields(k).field_count());
  return o;
}
u128 Block(const D::Block& b) { return ((u128)b.high() << 64) | b.low(); }
u128 Int(const Value::Integer& i) { return i.has_value_uint64() ? i.value_uint64() : Block(i.value_uint128()); }
void PushLeaf(const Leaf& l, u128 x, Numbers* n) {
  PushU(l.kind == kMod ? &n->other : &n->uniform, x, l.bits);
}
void PushLeaves(const std::vector<Leaf>& t, const Leaves& v, Numbers* n) {
  for (size_t i = 0; i < t.size(); i++) PushLeaf(t[i], v[i], n);
}
void ValueLeaves(const Value& v, Leaves* l) {
  if (v.has_tuple()) for (auto& e : v.tuple().elements()) ValueLeaves(e, l);
  else l->push_back(Int(v.has_integer() ? v.integer() : v.has_int_mod_n() ? v.int_mod_n() : v.xor_wrapper()));
}
void PushValue(const TypeOps& t, const Value& v, Numbers* n) {
  Leaves l;
  ValueLeaves(v, &l);
  REQUIRE(l.size() == t.leaves.size()) << "value correction has " << l.size() << " numbers";
  PushLeaves(t.leaves, l, n);
}
// types: per hierarchy level.
void PushKey(const std::vector<const TypeOps*>& types, const DpfKey& k, Numbers* n) {
  PushU(&n->uniform, Block(k.seed()), 128);
  n->blocks.push_back(Block(k.seed()));
  size_t level = 0;
  for (auto& c : k.correction_words()) {
    // The lowest bit is the control bit's place.
    PushU(&n->uniform, Block(c.seed()) >> 1, 127);
    n->blocks.push_back(Block(c.seed()));
    n->uniform.Push(c.control_left(), 1);
    n->uniform.Push(c.control_right(), 1);
    for (auto& v : c.value_correction()) PushValue(*types[level], v, n);
    if (c.value_correction_size()) level++;
  }
  for (auto& v : k.last_level_value_correction()) PushValue(*types.back(), v, n);
}

void SecretInt(gf2::Bits* b, u128 x, int bits) { PushU(b, x, bits); }
u128 UniLeaf(Src& s, const Leaf& l, pbt::Rng& r) {
  u128 x = ((u128)r.Next() << 64) | r.Next();
  return l.kind == kMod ? x % l.modulus : x & MaxOf(l);
}
Leaves UniValue(Src& s, const TypeOps& t, pbt::Rng& r) { Leaves v; for (auto& l : t.leaves) v.push_back(UniLeaf(s, l, r)); return v; }
u128 UniBits(pbt::Rng& r, int bits) {
  u128 x = ((u128)r.Next() << 64) | r.Next();
  return bits == 0 ? 0 : bits >= 128 ? x : x & (((u128)1 << bits) - 1);
}
size_t SecretBits(const TypeOps& t) { size_t n = 0; for (auto& l : t.leaves) n += l.bits; return n; }
}  // namespace

// Point and incremental functions.
static void DpfKeys(Src& s, bool vary, int max_levels, int max_log, int gens_extra) {
  Config c;
  PickTarget(s);
  GenOptions o;
  o.max_levels = max_levels;
  o.max_log = max_log;
  DrawParams(s, o, &c);
  NOTE(s, Show(c) << (vary ? " varying" : " fixed") << " secrets");
  MakeDpf(&c);
  pbt::Rng r{s.Draw(~0ull)};
  u128 alpha = s.Edge128(c.MaxPoint(c.levels() - 1));
  std::vector<Leaves> beta;
  for (auto* t : c.types) beta.push_back(DrawValue(s, *t));
  pbt::SeedRand(s.Draw(~0ull));
  Table tab[2];
  std::vector<std::vector<u128>> roots;
  std::string shape[2];
  // Uniform secrets come first in the secret row.
  size_t uni = 0, want = 200;
  std::vector<std::vector<u128>> cws;
  for (size_t g = 0; g < want; g++) {
    if (vary) {
      alpha = UniBits(r, c.logs.back());
      for (int i = 0; i < c.levels(); i++) beta[i] = UniValue(s, *c.types[i], r);
    }
    std::vector<Value> bv;
    for (int i = 0; i < c.levels(); i++) bv.push_back(ValueProto(c.types[i]->shape, beta[i]));
    auto k = c.dpf->GenerateKeysIncremental(A(alpha), bv);
    REQUIRE(k.ok()) << k.status();
    gf2::Bits secret;
    SecretInt(&secret, alpha, c.logs.back());
    for (int pass = 0; pass < 2; pass++) {
      for (int i = 0; i < c.levels(); i++)
        for (size_t j = 0; j < beta[i].size(); j++)
          if ((c.types[i]->leaves[j].kind == kMod) == (pass == 1)) SecretInt(&secret, beta[i][j], c.types[i]->leaves[j].bits);
      if (pass == 0) uni = secret.n;
    }
    std::vector<u128> rr;
    for (int p = 0; p < 2; p++) {
      const DpfKey& key = p ? k->second : k->first;
      std::string sh = KeyShape(key);
      if (g == 0) shape[p] = sh;
      REQUIRE(sh == shape[p]) << "party " << p << ": the key's structure is " << sh << " for one function and " << shape[p] << " for another of the same parameters";
      Numbers n;
      PushKey(c.types, key, &n);
      tab[p].Add(n, secret);
      rr.push_back(n.blocks[0]);
      if (p == 0) { n.blocks.erase(n.blocks.begin()); cws.push_back(n.blocks); }
    }
    roots.push_back(rr);
    if (g == 0) want = std::min<size_t>(4000, tab[0].nu + 128 + (vary ? uni : 0) + 128 + gens_extra);
  }
  // Both root seeds of one generation together: independent of each other.
  Table both;
  for (size_t g = 0; g < roots.size(); g++) {
    Numbers n;
    PushU(&n.uniform, roots[g][0], 128);
    PushU(&n.uniform, roots[g][1], 128);
    both.Add(n, gf2::Bits());
  }
  if (roots.size() >= 256 + 64) CheckRank(both, 0, "root seeds of both parties");
  CheckFresh(roots, "root seeds");
  CheckFresh(cws, "correction seeds");
  for (int p = 0; p < 2; p++) {
    std::string what = "party " + std::to_string(p);
    size_t us = vary ? uni : 0;
    if (tab[p].rows.size() >= tab[p].nu + us + 64) CheckRank(tab[p], us, what);
    CheckCorrelation(tab[p], what);
  }
  s.NonTrivial(tab[0].nu >= 64 && roots.size() >= 200);
  s.Label(vary ? "varying secrets" : "fixed secrets");
}
CASE(point_keys, 120, 3000) { DpfKeys(s, s.Bool(), 1, (int)s.Small(0, 24), 100); }
CASE(incremental_keys, 100, 2500) { DpfKeys(s, s.Bool(), 4, (int)s.Small(1, 20), 100); }

// Large domains, many levels, large comparison functions: all key bits against
// the secrets, and the rank of the root seed with a sample of the other bits.
static gf2::Row Select(const gf2::Row& r, const std::vector<size_t>& cols) {
  gf2::Bits b;
  for (size_t c : cols) b.Push(Bit(r, c), 1);
  return b.w;
}
static std::vector<size_t> Sample(pbt::Rng& r, size_t from, size_t to, size_t n) {
  std::vector<size_t> all, out;
  for (size_t i = from; i < to; i++) all.push_back(i);
  while (!all.empty() && out.size() < n) {
    size_t k = r.Next() % all.size();
    out.push_back(all[k]);
    all[k] = all.back();
    all.pop_back();
  }
  return out;
}
CASE(deep_keys, 90, 2500) {
  bool comparison = s.Chance(1, 3);
  Config c;
  Dcf f;
  std::vector<const TypeOps*> types, beta_types;
  int log;
  PickTarget(s);
  if (comparison) {
    DrawDcf(s, s.Bool() ? 128 : 64, &f);
    log = f.log;
    types.assign(log, f.type);
    beta_types = {f.type};
    NOTE(s, f.type->name << " 2^" << log);
  } else {
    GenOptions o;
    o.max_levels = s.Bool() ? 2 : 14;
    o.min_log = (int)s.Small(8, 100);
    DrawParams(s, o, &c);
    MakeDpf(&c);
    log = c.logs.back();
    types = beta_types = c.types;
    NOTE(s, Show(c));
  }
  pbt::Rng r{s.Draw(~0ull)};
  pbt::SeedRand(s.Draw(~0ull));
  Table tab[2];
  std::vector<std::vector<u128>> roots, halves;
  std::string shape[2];
  size_t uni = 0, gens = 740;
  for (size_t g = 0; g < gens; g++) {
    u128 alpha = UniBits(r, log);
    std::vector<Leaves> beta;
    std::vector<Value> bv;
    for (auto* t : beta_types) {
      beta.push_back(UniValue(s, *t, r));
      bv.push_back(ValueProto(t->shape, beta.back()));
    }
    std::pair<DpfKey, DpfKey> k;
    if (comparison) {
      auto x = f.dcf->GenerateKeys(A(alpha), bv[0]);
      REQUIRE(x.ok()) << x.status();
      k = {x->first.key(), x->second.key()};
    } else {
      auto x = c.dpf->GenerateKeysIncremental(A(alpha), bv);
      REQUIRE(x.ok()) << x.status();
      k = *x;
    }
    gf2::Bits secret;
    SecretInt(&secret, alpha, log);
    for (int pass = 0; pass < 2; pass++) {
      for (size_t i = 0; i < beta.size(); i++)
        for (size_t j = 0; j < beta[i].size(); j++)
          if ((beta_types[i]->leaves[j].kind == kMod) == (pass == 1)) SecretInt(&secret, beta[i][j], beta_types[i]->leaves[j].bits);
      if (pass == 0) uni = secret.n;
    }
    std::vector<u128> both;
    for (int p = 0; p < 2; p++) {
      const DpfKey& key = p ? k.second : k.first;
      std::string sh = KeyShape(key);
      if (g == 0) shape[p] = sh;
      REQUIRE(sh == shape[p]) << "party " << p << ": the key's structure is " << sh << " for one function and " << shape[p] << " for another";
      Numbers n;
      PushKey(types, key, &n);
      tab[p].Add(n, secret);
      both.push_back(n.blocks[0]);
    }
    roots.push_back(both);
    halves.push_back({both[0] >> 64, (uint64_t)both[0], both[1] >> 64, (uint64_t)both[1]});
  }
  CheckFresh(halves, "halves of root seeds");
  Table seeds;
  for (auto& x : roots) {
    Numbers n;
    PushU(&n.uniform, x[0], 128);
    PushU(&n.uniform, x[1], 128);
    seeds.Add(n, gf2::Bits());
  }
  CheckRank(seeds, 0, "root seeds of both parties");
  for (int p = 0; p < 2; p++) {
    std::string what = "party " + std::to_string(p);
    // Alpha and a sample of beta's bits.
    std::vector<size_t> sec = Sample(r, (size_t)log, uni, 128);
    for (int i = 0; i < log; i++) sec.push_back(i);
    Table rank;
    std::vector<size_t> cols = Sample(r, 128, tab[p].nu, 256);
    for (size_t i = 0; i < 128; i++) cols.push_back(i);
    rank.nu = cols.size();
    rank.ns = sec.size();
    Table cor;
    cor.nu = tab[p].nu; cor.no = tab[p].no; cor.ns = sec.size();
    for (size_t i = 0; i < tab[p].rows.size(); i++) {
      rank.rows.push_back(Select(tab[p].rows[i], cols));
      rank.secrets.push_back(Select(tab[p].secrets[i], sec));
    }
    CheckRank(rank, sec.size(), what + ", sampled bits");
    cor.rows = std::move(tab[p].rows);
    cor.others = std::move(tab[p].others);
    cor.secrets = rank.secrets;
    CheckCorrelation(cor, what);
  }
  s.NonTrivial(log > 24 || types.size() > 4);
  s.Label(comparison ? "deep comparison" : "deep function");
}

// Same function, same instance or another: no material in common, at any depth.
CASE(fresh, 3000, 90000) {
  Config c;
  PickTarget(s);
  GenOptions o;
  if (s.Chance(1, 3)) o.max_levels = 24;
  DrawParams(s, o, &c);
  MakeDpf(&c);
  auto d2 = DistributedPointFunction::CreateIncremental(c.params);
  REQUIRE(d2.ok());
  for (auto* t : c.types) REQUIRE(t->reg(**d2).ok());
  u128 alpha = s.Edge128(c.MaxPoint(c.levels() - 1));
  std::vector<Value> beta;
  for (auto* t : c.types) beta.push_back(ValueProto(t->shape, DrawValue(s, *t)));
  NOTE(s, Show(c) << " alpha=" << pbt::Str128(alpha));
  pbt::SeedRand(s.Draw(~0ull));
  std::set<uint64_t> seen;
  auto add = [&](u128 x, const char* what) {
    REQUIRE(seen.insert((uint64_t)(x >> 64)).second && seen.insert((uint64_t)x).second) << what << " " << pbt::Str128(x) << ": half of it used before";
  };
  for (int g = (int)s.Int(2, 4); g > 0; g--) {
    auto k = (s.Bool() ? *d2 : c.dpf)->GenerateKeysIncremental(A(alpha), beta);
    REQUIRE(k.ok()) << k.status();
    for (int p = 0; p < 2; p++) {
      const DpfKey& key = p ? k->second : k->first;
      REQUIRE(key.party() == p);
      add(Block(key.seed()), "root seed");
      if (p == 0) for (auto& cw : key.correction_words()) add(Block(cw.seed()), "correction seed");
    }
  }
  s.NonTrivial(c.logs.back() > 0);
}

// The two parties' root seeds are drawn separately: with half of the source's
// blocks known, the other half still makes the pair of seeds new every time,
// which it would not if one seed were derived from the other.
CASE(half_entropy, 3000, 60000) {
  pbt::SeedRand(s.Draw(~0ull));
  std::vector<std::pair<u128, u128>> seen;
  auto check = [&](const DpfKey& a, const DpfKey& b) {
    std::pair<u128, u128> x{Block(a.seed()), Block(b.seed())};
    REQUIRE(x.first != x.second) << "both parties have root seed " << pbt::Str128(x.first);
    REQUIRE(std::find(seen.begin(), seen.end(), x) == seen.end()) << "with half of the source of randomness known, the root seeds " << pbt::Str128(x.first) << " and " << pbt::Str128(x.second) << " occur twice";
    seen.push_back(x);
  };
  int which = s.Bool();
  if (s.Chance(1, 3)) {
    Dcf f;
    DrawDcf(s, 8, &f);
    u128 alpha = s.Edge128(f.Max());
    Leaves beta = DrawValue(s, *f.type);
    NOTE(s, f.type->name << " 2^" << f.log << " half " << which);
    pbt::HalfRand(which);
    for (int g = 0; g < 6; g++) {
      auto k = f.dcf->GenerateKeys(A(alpha), ValueProto(f.type->shape, beta));
      REQUIRE(k.ok()) << k.status();
      check(k->first.key(), k->second.key());
    }
  } else {
    Config c;
    GenOptions o;
    o.max_log = (int)s.Small(0, 128);
    DrawParams(s, o, &c);
    NOTE(s, Show(c) << " half " << which);
    MakeDpf(&c);
    u128 alpha = s.Edge128(c.MaxPoint(c.levels() - 1));
    std::vector<Value> beta;
    for (auto* t : c.types) beta.push_back(ValueProto(t->shape, DrawValue(s, *t)));
    pbt::HalfRand(which);
    for (int g = 0; g < 6; g++) {
      auto k = c.dpf->GenerateKeysIncremental(A(alpha), beta);
      REQUIRE(k.ok()) << k.status();
      check(k->first, k->second);
    }
  }
  pbt::SeedRand(1);
  s.NonTrivial(true);
}

// One party's shares at the special point and elsewhere: independent of the
// secrets and of each other.
CASE(shares, 120, 3000) {
  Config c;
  PickTarget(s);
  GenOptions o;
  o.max_levels = 2;
  o.max_log = (int)s.Small(1, 128);
  DrawParams(s, o, &c);
  MakeDpf(&c);
  int level = c.levels() - 1;
  const TypeOps& t = *c.types[level];
  bool vary = s.Bool();
  int party = s.Bool();
  pbt::Rng r{s.Draw(~0ull)};
  u128 alpha = s.Edge128(c.MaxPoint(level)), x = s.Edge128(c.MaxPoint(level));
  std::vector<Leaves> beta;
  for (auto* tt : c.types) beta.push_back(DrawValue(s, *tt));
  NOTE(s, Show(c) << " party " << party << (vary ? " varying" : " fixed"));
  pbt::SeedRand(s.Draw(~0ull));
  Table tab;
  size_t uni = 0;
  size_t gens = 400;
  for (size_t g = 0; g < gens; g++) {
    if (vary) {
      for (size_t i = 0; i < beta.size(); i++) beta[i] = UniValue(s, *c.types[i], r);
      alpha = UniBits(r, c.logs[level]);
      x = UniBits(r, c.logs[level]);
    }
    std::vector<Value> bv;
    for (int i = 0; i < c.levels(); i++) bv.push_back(ValueProto(c.types[i]->shape, beta[i]));
    auto k = c.dpf->GenerateKeysIncremental(A(alpha), bv);
    REQUIRE(k.ok()) << k.status();
    u128 other = x == alpha ? (alpha ^ 1) & c.MaxPoint(level) : x;
    std::vector<absl::uint128> pts = {A(alpha)};
    if (other != alpha) pts.push_back(A(other));
    auto e = t.at(*c.dpf, party ? k->second : k->first, level, pts);
    REQUIRE(e.ok()) << e.status();
    Numbers n;
    for (auto& v : *e) PushLeaves(t.leaves, v, &n);
    gf2::Bits secret;
    for (int pass = 0; pass < 2; pass++) {
      for (size_t j = 0; j < t.leaves.size(); j++)
        if ((t.leaves[j].kind == kMod) == (pass == 1)) SecretInt(&secret, beta[level][j], t.leaves[j].bits);
      if (pass == 0) uni = secret.n;
    }
    tab.Add(n, secret);
    if (g == 0) gens = tab.nu + uni + 64 + 400;
  }
  if (tab.nu > 0) CheckRank(tab, vary ? uni : 0, "shares of party " + std::to_string(party));
  CheckCorrelation(tab, "shares of party " + std::to_string(party));
  s.NonTrivial(true);
}

CASE(comparison_keys, 60, 1500) {
  Dcf f;
  PickTarget(s);
  DrawDcf(s, 12, &f);
  std::vector<const TypeOps*> types(f.log, f.type);
  bool vary = s.Bool();
  NOTE(s, f.type->name << " 2^" << f.log << (vary ? " varying" : " fixed"));
  pbt::Rng r{s.Draw(~0ull)};
  u128 alpha = s.Edge128(f.Max());
  Leaves beta = DrawValue(s, *f.type);
  pbt::SeedRand(s.Draw(~0ull));
  Table tab[2];
  std::string shape[2];
  size_t uni = 0, want = 200;
  for (size_t g = 0; g < want; g++) {
    if (vary) { alpha = UniBits(r, f.log); beta = UniValue(s, *f.type, r); }
    auto k = f.dcf->GenerateKeys(A(alpha), ValueProto(f.type->shape, beta));
    REQUIRE(k.ok()) << k.status();
    gf2::Bits secret;
    SecretInt(&secret, alpha, f.log);
    for (int pass = 0; pass < 2; pass++) {
      for (size_t j = 0; j < beta.size(); j++) if ((f.type->leaves[j].kind == kMod) == (pass == 1)) SecretInt(&secret, beta[j], f.type->leaves[j].bits);
      if (pass == 0) uni = secret.n;
    }
    for (int p = 0; p < 2; p++) {
      const DpfKey& key = (p ? k->second : k->first).key();
      std::string sh = KeyShape(key);
      if (g == 0) shape[p] = sh;
      REQUIRE(sh == shape[p]) << "party " << p << ": the key's structure is " << sh << " for one function and " << shape[p] << " for another";
      Numbers n;
      PushKey(types, key, &n);
      tab[p].Add(n, secret);
    }
    if (g == 0) want = std::min<size_t>(4500, tab[0].nu + (vary ? uni : 0) + 164);
  }
  for (int p = 0; p < 2; p++) {
    std::string what = "comparison key of party " + std::to_string(p);
    size_t us = vary ? uni : 0;
    if (tab[p].rows.size() >= tab[p].nu + us + 64) CheckRank(tab[p], us, what);
    CheckCorrelation(tab[p], what);
  }
  s.NonTrivial(tab[0].rows.size() >= 200);
}

CASE(gate_keys, 40, 1000) {
  using Gate = D::fss_gates::MultipleIntervalContainmentGate;
  int log = (int)s.Int(1, 10);
  D::fss_gates::MicParameters p;
  p.set_log_group_size(log);
  u128 max = ((u128)1 << log) - 1;
  int iv = (int)s.Int(1, 4);
  for (int i = 0; i < iv; i++) {
    u128 a = s.Edge128(max), b = s.Edge128(max);
    if (a > b) std::swap(a, b);
    auto* x = p.add_intervals();
    x->mutable_lower_bound()->mutable_value_uint128()->set_low((uint64_t)a);
    x->mutable_upper_bound()->mutable_value_uint128()->set_low((uint64_t)b);
  }
  auto gate = Gate::Create(p);
  REQUIRE(gate.ok()) << gate.status();
  static const TypeOps* t128 = [] { for (auto& t : Types()) if (t.name == "absl::uint128") return &t; return (const TypeOps*)nullptr; }();
  std::vector<const TypeOps*> types(log, t128);
  bool vary = s.Bool();
  NOTE(s, p.ShortDebugString() << (vary ? " varying" : " fixed"));
  pbt::Rng r{s.Draw(~0ull)};
  u128 r_in = s.Edge128(max);
  std::vector<u128> r_out;
  for (int i = 0; i < iv; i++) r_out.push_back(s.Edge128(max));
  pbt::SeedRand(s.Draw(~0ull));
  Table tab[2];
  std::string shape[2];
  size_t want = 200, ns = 0;
  for (size_t g = 0; g < want; g++) {
    if (vary) { r_in = UniBits(r, log); for (auto& x : r_out) x = UniBits(r, log); }
    std::vector<absl::uint128> ro;
    for (u128 x : r_out) ro.push_back(A(x));
    auto k = (*gate)->Gen(A(r_in), ro);
    REQUIRE(k.ok()) << k.status();
    gf2::Bits secret;
    SecretInt(&secret, r_in, log);
    for (u128 x : r_out) SecretInt(&secret, x, log);
    ns = secret.n;
    for (int q = 0; q < 2; q++) {
      const auto& mk = q ? k->second : k->first;
      const DpfKey& key = mk.dcfkey().key();
      std::string sh = KeyShape(key) + std::to_string(mk.output_mask_share_size());
      for (auto& m : mk.output_mask_share()) IntShape(m, &sh);
      if (g == 0) shape[q] = sh;
      REQUIRE(sh == shape[q]) << "party " << q << ": structure depends on the masks";
      Numbers n;
      PushKey(types, key, &n);
      for (auto& m : mk.output_mask_share()) PushU(&n.uniform, Int(m), log);
      tab[q].Add(n, secret);
    }
    if (g == 0) want = std::min<size_t>(4500, tab[0].nu + (vary ? ns : 0) + 164);
  }
  for (int q = 0; q < 2; q++) {
    std::string what = "gate key of party " + std::to_string(q);
    size_t us = vary ? ns : 0;
    if (tab[q].rows.size() >= tab[q].nu + us + 64) CheckRank(tab[q], us, what);
    CheckCorrelation(tab[q], what);
  }
  s.NonTrivial(true);
}

// Mask shares in groups of any size, where whole keys would be too many bits.
CASE(gate_masks, 60, 1500) {
  using Gate = D::fss_gates::MultipleIntervalContainmentGate;
  int log = (int)s.Int(1, 127), iv = (int)s.Int(1, log > 64 ? 2 : 4);
  D::fss_gates::MicParameters p;
  p.set_log_group_size(log);
  u128 max = ((u128)1 << log) - 1;
  for (int i = 0; i < iv; i++) {
    u128 a = s.Edge128(max), b = s.Edge128(max);
    if (a > b) std::swap(a, b);
    auto* x = p.add_intervals();
    SetInteger(x->mutable_lower_bound(), a);
    SetInteger(x->mutable_upper_bound(), b);
  }
  auto gate = Gate::Create(p);
  REQUIRE(gate.ok()) << gate.status();
  bool vary = s.Bool();
  NOTE(s, p.ShortDebugString() << (vary ? " varying" : " fixed"));
  pbt::Rng r{s.Draw(~0ull)};
  u128 r_in = s.Edge128(max);
  std::vector<u128> r_out;
  for (int i = 0; i < iv; i++) r_out.push_back(s.Edge128(max));
  pbt::SeedRand(s.Draw(~0ull));
  Table tab[2];
  size_t want = (size_t)log * iv + (vary ? (size_t)log * (iv + 1) : 0) + 164;
  for (size_t g = 0; g < want; g++) {
    if (vary) { r_in = UniBits(r, log); for (auto& x : r_out) x = UniBits(r, log); }
    std::vector<absl::uint128> ro;
    for (u128 x : r_out) ro.push_back(A(x));
    auto k = (*gate)->Gen(A(r_in), ro);
    REQUIRE(k.ok()) << k.status();
    gf2::Bits secret;
    SecretInt(&secret, r_in, log);
    for (u128 x : r_out) SecretInt(&secret, x, log);
    for (int q = 0; q < 2; q++) {
      const auto& mk = q ? k->second : k->first;
      REQUIRE(mk.output_mask_share_size() == iv) << mk.output_mask_share_size() << " mask shares";
      Numbers n;
      for (auto& m : mk.output_mask_share()) PushU(&n.uniform, Int(m), log);
      tab[q].Add(n, secret);
    }
  }
  for (int q = 0; q < 2; q++) {
    std::string what = "mask shares of party " + std::to_string(q);
    CheckRank(tab[q], vary ? (size_t)log * (iv + 1) : 0, what);
    CheckCorrelation(tab[q], what);
  }
  s.NonTrivial(true);
}
