// C13: the interval gate's shares recombine to interval membership plus mask.
// LIBS: gates
#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dpf_types.h"
#include "pbt.h"
using namespace vt;
using pbt::Src;
using D::fss_gates::MicKey;
using D::fss_gates::MicParameters;
using Gate = D::fss_gates::MultipleIntervalContainmentGate;

const char* const pbt::kRule =
    "A case draws a group of 2^1..2^127 elements, 0..6 intervals (bounds edge-weighted, equal, adjacent, whole group, both "
    "message encodings), masks and inputs near the interval ends and the wrap-around point, and compares recombined batch "
    "and single evaluations with interval membership; or parameters, masks, inputs or keys invalid in a documented way. "
    "Non-trivial: some input inside and some outside an interval; for refusals, an input that differs from a valid one.";
const std::vector<std::string> pbt::kAssumptions = {"the library's RAND_bytes is replaced by a seeded stream"};

static void Put(Src& s, Value::Integer* i, u128 x) {
  // Numbers below 2^64 have two encodings.
  if ((x >> 64) == 0 && s.Chance(1, 3)) { i->set_value_uint64((uint64_t)x); return; }
  i->mutable_value_uint128()->set_high((uint64_t)(x >> 64));
  i->mutable_value_uint128()->set_low((uint64_t)x);
}
struct Mic {
  int log;
  u128 n;
  std::vector<std::pair<u128, u128>> iv;
  MicParameters p;
  std::unique_ptr<Gate> gate;
};
static void DrawParams(Src& s, Mic* m, int min_intervals = 0) {
  m->log = (int)(s.Bool() ? s.Int(1, 8) : s.Int(1, 127));
  m->n = (u128)1 << m->log;
  m->p.set_log_group_size(m->log);
  for (int k = (int)(s.Chance(1, 60) ? s.Small(7, 70) : s.Small(min_intervals, 6)); k > 0; k--) {
    u128 a = s.Edge128(m->n - 1), b = s.Chance(1, 4) ? a : s.Chance(1, 4) ? (a + s.Int(0, 3)) & (m->n - 1) : s.Edge128(m->n - 1);
    if (!m->iv.empty() && s.Chance(1, 4)) a = (m->iv.back().second + 1) & (m->n - 1);
    if (a > b) std::swap(a, b);
    m->iv.push_back({a, b});
    auto* i = m->p.add_intervals();
    Put(s, i->mutable_lower_bound(), a);
    Put(s, i->mutable_upper_bound(), b);
  }
}
static std::string Show(const Mic& m) {
  std::string r = "N=2^" + std::to_string(m.log);
  for (auto& i : m.iv) r += " [" + pbt::Str128(i.first) + "," + pbt::Str128(i.second) + "]";
  return r;
}
static void Make(Mic* m) {
  auto g = Gate::Create(m->p);
  REQUIRE(g.ok()) << "valid parameters refused: " << g.status();
  m->gate = std::move(*g);
}
struct Keys { u128 r_in; std::vector<u128> r_out; MicKey k[2]; };
static Keys DrawKeys(Src& s, const Mic& m) {
  Keys k;
  k.r_in = s.Edge128(m.n - 1);
  std::vector<absl::uint128> ro;
  for (size_t i = 0; i < m.iv.size(); i++) { k.r_out.push_back(s.Edge128(m.n - 1)); ro.push_back(A(k.r_out[i])); }
  pbt::SeedRand(s.Draw(~0ull));
  auto r = m.gate->Gen(A(k.r_in), ro);
  REQUIRE(r.ok()) << "key generation failed: " << r.status();
  k.k[0] = r->first;
  k.k[1] = r->second;
  if (s.Chance(1, 8)) for (int p = 0; p < 2; p++) { MicKey c; REQUIRE(c.ParseFromString(k.k[p].SerializeAsString())); k.k[p] = c; }
  return k;
}
static u128 DrawInput(Src& s, const Mic& m, u128 r_in) {
  u128 x = s.Edge128(m.n - 1);
  int how = (int)s.Draw(5);
  if (how <= 2 && !m.iv.empty()) {
    auto& i = m.iv[s.Draw(m.iv.size() - 1)];
    x = (s.Bool() ? i.first : i.second) + s.Int(-1, 1);
  } else if (how == 3) {
    x = m.n - r_in + s.Int(-1, 1);   // where the masked input wraps around
  } else if (how == 4) {
    x = r_in + s.Int(-1, 1);
  }
  return x & (m.n - 1);
}

CASE(gates, 6000, 200000) {
  std::string target = PickTarget(s);
  Mic m;
  DrawParams(s, &m, s.Chance(1, 12) ? 0 : 1);
  NOTE(s, Show(m) << " " << target);
  Make(&m);
  std::vector<Keys> pool;
  for (int n = (int)s.Small(1, 3); n > 0; n--) pool.push_back(DrawKeys(s, m));
  int batch = (int)(s.Chance(1, 100) ? s.Small(9, 60) : s.Small(s.Chance(1, 12) ? 0 : 2, 8));
  if (m.iv.size() > 6) batch = std::min(batch, 12);
  std::vector<MicKey> keys[2];
  std::vector<const MicKey*> ptrs[2];
  std::vector<int> which;
  std::vector<u128> xs;
  std::vector<absl::uint128> masked;
  // In some batches keys of both parties stand side by side.
  const bool mixed = s.Chance(1, 4);
  std::vector<bool> flip;
  for (int i = 0; i < batch; i++) {
    which.push_back((int)s.Draw(pool.size() - 1));
    flip.push_back(mixed && s.Bool());
    Keys& k = pool[which[i]];
    xs.push_back(DrawInput(s, m, k.r_in));
    masked.push_back(A((xs[i] + k.r_in) & (m.n - 1)));
    for (int p = 0; p < 2; p++) { keys[p].push_back(k.k[p ^ flip[i]]); ptrs[p].push_back(&k.k[p ^ flip[i]]); }
    NOTE(s, "x=" << pbt::Str128(xs[i]) << " r_in=" << pbt::Str128(k.r_in) << (flip[i] ? " parties swapped" : ""));
  }
  bool in = false, out = false;
  const int rounds = batch > 0 && s.Chance(1, 3) ? 2 : 1;
  for (int round = 0; round < rounds; round++) {
  if (round > 0) {
    // The same objects again with other contents.
    for (int i = 0; i < batch; i++) {
      Keys& k = pool[which[i]];
      xs[i] = DrawInput(s, m, k.r_in);
      masked[i] = A((xs[i] + k.r_in) & (m.n - 1));
    }
    if (pool.size() > 1) {
      std::swap(pool[0].k, pool[1].k); std::swap(pool[0].r_in, pool[1].r_in); std::swap(pool[0].r_out, pool[1].r_out);
      for (int i = 0; i < batch; i++) {
        masked[i] = A((xs[i] + pool[which[i]].r_in) & (m.n - 1));
        for (int p = 0; p < 2; p++) keys[p][i] = pool[which[i]].k[p ^ flip[i]];
      }
    }
  }
  std::vector<absl::uint128> y[2];
  for (int p = 0; p < 2; p++) {
    auto r = s.Bool() ? m.gate->BatchEval(absl::MakeConstSpan(keys[p]), masked) : m.gate->BatchEval(absl::MakeConstSpan(ptrs[p]), masked);
    REQUIRE(r.ok()) << "party " << p << ": " << r.status();
    REQUIRE(r->size() == batch * m.iv.size()) << r->size() << " results";
    y[p] = *r;
    if (batch > 0) {
      int i = (int)s.Draw(batch - 1);
      auto one = m.gate->Eval(keys[p][i], masked[i]);
      REQUIRE(one.ok()) << one.status();
      REQUIRE(one->size() == m.iv.size());
      for (size_t j = 0; j < m.iv.size(); j++) REQUIRE((*one)[j] == y[p][i * m.iv.size() + j]) << "single evaluation differs from batch at key " << i << " interval " << j;
    }
  }
  for (int i = 0; i < batch; i++)
    for (size_t j = 0; j < m.iv.size(); j++) {
      size_t k = i * m.iv.size() + j;
      bool member = m.iv[j].first <= xs[i] && xs[i] <= m.iv[j].second;
      (member ? in : out) = true;
      u128 got = (U(y[0][k]) + U(y[1][k])) & (m.n - 1), want = (pool[which[i]].r_out[j] + member) & (m.n - 1);
      REQUIRE(got == want) << "x=" << pbt::Str128(xs[i]) << " r_in=" << pbt::Str128(pool[which[i]].r_in) << " interval " << j << ": shares recombine to " << pbt::Str128(got) << ", expected " << pbt::Str128(want);
      REQUIRE(U(y[0][k]) < m.n && U(y[1][k]) < m.n) << "share is not in the group";
    }
  }
  s.NonTrivial(in && out);
  if (m.log > 64) s.Label("group above 2^64");
  if (m.iv.empty()) s.Label("no intervals");
}

// Every input of a small group.
CASE(whole_group, 600, 20000) {
  Mic m;
  m.log = (int)s.Int(1, 5);
  m.n = (u128)1 << m.log;
  m.p.set_log_group_size(m.log);
  for (int k = (int)s.Small(1, 4); k > 0; k--) {
    u128 a = s.Draw((uint64_t)m.n - 1), b = s.Draw((uint64_t)m.n - 1);
    if (a > b) std::swap(a, b);
    m.iv.push_back({a, b});
    auto* i = m.p.add_intervals();
    Put(s, i->mutable_lower_bound(), a);
    Put(s, i->mutable_upper_bound(), b);
  }
  NOTE(s, Show(m));
  Make(&m);
  Keys k = DrawKeys(s, m);
  std::vector<const MicKey*> ptrs[2];
  std::vector<absl::uint128> xs;
  for (u128 x = 0; x < m.n; x++) { xs.push_back(A(x)); for (int p = 0; p < 2; p++) ptrs[p].push_back(&k.k[p]); }
  auto a = m.gate->BatchEval(absl::MakeConstSpan(ptrs[0]), xs), b = m.gate->BatchEval(absl::MakeConstSpan(ptrs[1]), xs);
  REQUIRE(a.ok() && b.ok()) << a.status() << b.status();
  for (u128 x = 0; x < m.n; x++) {
    u128 real = (x - k.r_in) & (m.n - 1);
    for (size_t j = 0; j < m.iv.size(); j++) {
      bool member = m.iv[j].first <= real && real <= m.iv[j].second;
      u128 got = (U((*a)[x * m.iv.size() + j]) + U((*b)[x * m.iv.size() + j])) & (m.n - 1);
      REQUIRE(got == ((k.r_out[j] + member) & (m.n - 1))) << "input " << pbt::Str128(real) << " r_in " << pbt::Str128(k.r_in) << " interval " << j;
    }
  }
  s.NonTrivial(m.log > 1);
}

static void WantInvalid(const absl::Status& st, const char* what) {
  REQUIRE(!st.ok()) << what << " accepted";
  REQUIRE(st.code() == absl::StatusCode::kInvalidArgument) << what << " refused with " << st;
}

CASE(bad_parameters, 20000, 600000) {
  Mic m;
  DrawParams(s, &m, 1);
  auto* i = m.p.mutable_intervals((int)s.Draw(m.p.intervals_size() - 1));
  bool bad = true;
  switch (s.Draw(5)) {
    case 0: { int l = s.Bool() ? (int)s.Pick({0, -1, 128, 129, 200, 1 << 30}) : (int)(int32_t)s.Edge(0xffffffff);
      m.p.set_log_group_size(l);
      if (l >= 1 && l <= 127) { bad = false; for (auto& x : m.iv) bad |= x.second >= (u128)1 << l; }
      break; }
    case 1: if (s.Bool()) i->clear_lower_bound(); else i->clear_upper_bound(); break;
    case 2: if (s.Bool()) i->mutable_lower_bound()->clear_value(); else i->mutable_upper_bound()->clear_value(); break;
    case 3: { u128 x = m.n + s.Edge128(~(u128)0 - m.n); Put(s, i->mutable_upper_bound(), x); if (s.Bool()) Put(s, i->mutable_lower_bound(), s.Edge128(x)); break; }
    case 4: { u128 b = s.Edge128(m.n - 2), a = b + 1 + s.Edge128(m.n - 2 - b); Put(s, i->mutable_lower_bound(), a); Put(s, i->mutable_upper_bound(), b); break; }
    default: bad = false;
  }
  NOTE(s, m.p.ShortDebugString());
  auto g = Gate::Create(m.p);
  if (bad) WantInvalid(g.status(), "invalid parameters"); else REQUIRE(g.ok()) << "valid parameters refused: " << g.status();
  s.NonTrivial(bad);
}

CASE(bad_use, 6000, 200000) {
  Mic m;
  DrawParams(s, &m, 1);
  Make(&m);
  Keys k = DrawKeys(s, m);
  int how = (int)s.Draw(8);
  NOTE(s, Show(m) << " misuse " << how);
  s.Label("misuse " + std::to_string(how));
  s.NonTrivial();
  u128 outside = m.n + s.Edge128(~(u128)0 - m.n);
  std::vector<absl::uint128> ro;
  for (auto& x : k.r_out) ro.push_back(A(x));
  switch (how) {
    case 0: WantInvalid(m.gate->Gen(A(outside), ro).status(), "input mask outside the group"); return;
    case 1: ro[s.Draw(ro.size() - 1)] = A(outside); WantInvalid(m.gate->Gen(A(k.r_in), ro).status(), "output mask outside the group"); return;
    case 2: if (s.Bool()) ro.pop_back(); else ro.push_back(0); WantInvalid(m.gate->Gen(A(k.r_in), ro).status(), "wrong number of output masks"); return;
    default: break;
  }
  std::vector<MicKey> keys;
  std::vector<absl::uint128> xs;
  int n = (int)(s.Chance(1, 4) ? s.Small(5, 40) : s.Small(1, 4));
  for (int i = 0; i < n; i++) { keys.push_back(k.k[s.Draw(1)]); xs.push_back(A(s.Edge128(m.n - 1))); }
  int i = s.Chance(1, 3) ? n - 1 : (int)s.Draw(n - 1);
  bool bad = true;
  switch (how) {
    case 3: xs[i] = A(outside); break;
    case 4: if (s.Bool()) xs.pop_back(); else xs.push_back(0); break;
    case 5: if (s.Bool()) keys[i].clear_output_mask_share(); else keys[i].mutable_output_mask_share()->RemoveLast(); break;
    case 6: if (s.Bool()) keys[i].clear_dcfkey(); else keys[i].mutable_dcfkey()->mutable_key()->clear_seed(); break;
    case 7: { auto* cw = keys[i].mutable_dcfkey()->mutable_key()->mutable_correction_words(); if (s.Bool() || cw->size() == 0) cw->Add(); else cw->RemoveLast(); break; }
    default: {
      // The same share in the other encoding is the same share.
      bad = false;
      auto want = m.gate->BatchEval(absl::MakeConstSpan(keys), xs);
      REQUIRE(want.ok()) << want.status();
      for (auto& key : keys) for (auto& sh : *key.mutable_output_mask_share())
        if (sh.has_value_uint128() && sh.value_uint128().high() == 0) sh.set_value_uint64(sh.value_uint128().low());
      auto got = m.gate->BatchEval(absl::MakeConstSpan(keys), xs);
      REQUIRE(got.ok()) << got.status();
      REQUIRE(*got == *want) << "shares in the 64-bit encoding are misread";
    }
  }
  auto r = m.gate->BatchEval(absl::MakeConstSpan(keys), xs);
  if (bad) WantInvalid(r.status(), "invalid batch"); else REQUIRE(r.ok());
}

// One party's mask shares are uniform whatever is masked: every bit of a share
// takes both values over several generations.
CASE(share_bits, 60, 1500) {
  Mic m;
  DrawParams(s, &m, 1);
  Make(&m);
  u128 r_in = s.Edge128(m.n - 1);
  std::vector<absl::uint128> ro;
  for (size_t i = 0; i < m.iv.size(); i++) ro.push_back(A(s.Edge128(m.n - 1)));
  pbt::SeedRand(s.Draw(~0ull));
  const int kGen = 64;
  for (int p = 0; p < 2; p++)
    for (size_t j = 0; j < m.iv.size(); j++) {
      u128 ones = 0, zeros = 0;
      for (int g = 0; g < kGen; g++) {
        auto k = m.gate->Gen(A(r_in), ro);
        REQUIRE(k.ok()) << k.status();
        const auto& sh = (p ? k->second : k->first).output_mask_share((int)j);
        u128 x = sh.has_value_uint64() ? sh.value_uint64() : ((u128)sh.value_uint128().high() << 64) | sh.value_uint128().low();
        ones |= x;
        zeros |= ~x;
      }
      // A fixed bit shows with probability 2^-63 by chance.
      REQUIRE((ones & (m.n - 1)) == m.n - 1) << "party " << p << ": bits of the share of interval " << j << " are always 0";
      REQUIRE((zeros & (m.n - 1)) == m.n - 1) << "party " << p << ": bits of the share of interval " << j << " are always 1";
    }
  NOTE(s, Show(m) << " " << kGen << " generations");
  s.NonTrivial();
}
