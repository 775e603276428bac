// C06: invalid parameters, values, keys, states and requests are refused.
// LIBS: core
// SRCS: dpf_types.cc dpf_types_0.cc dpf_types_1.cc dpf_types_2.cc dpf_types_3.cc
#include <algorithm>
#include <cmath>
#include <limits>
#include "dpf/internal/proto_validator.h"
#include "dpf_gen.h"
using namespace vt;
using pbt::Src;
using pbt::Str128;

const char* const pbt::kRule =
    "A case draws a parameter list, value list, key, evaluation state or request, usually a valid one with one or more "
    "fields changed, and compares the status with an independent model of the documented conditions (refused with the "
    "documented code, accepted otherwise, with unchanged results where the change must not matter); or messages mutated "
    "byte by byte, which must be handled without crashing or reading out of bounds. Non-trivial: the input differs from a "
    "valid one.";
const std::vector<std::string> pbt::kAssumptions = {
    "where the documentation leaves the status of a malformed message open, only the absence of crashes is judged",
    "a type that was not registered may be refused as UNIMPLEMENTED (GetValueCorrectionFunction) or FAILED_PRECONDITION (GenerateKeys)"};

static void WantInvalid(const absl::Status& st, const std::string& what) {
  REQUIRE(!st.ok()) << what << " accepted";
  REQUIRE(st.code() == absl::StatusCode::kInvalidArgument) << what << " refused with " << st;
}
static void WantAny(const absl::Status& st) {
  REQUIRE(st.ok() || st.code() == absl::StatusCode::kInvalidArgument) << st;
}

// ---------------------------------------------------------------- parameters
// What the documentation says about a value type.
struct Verdict {
  bool invalid = false;      // must be refused as INVALID_ARGUMENT
  bool unimplemented = false;// mixes different Z_N in one tuple
  bool maybe_invalid = false;// between the bounds that are clear
};
static bool IntegerOf(const Value::Integer& i, u128* x) {
  if (i.value_case() == Value::Integer::kValueUint64) { *x = i.value_uint64(); return true; }
  if (i.value_case() == Value::Integer::kValueUint128) {
    *x = ((u128)i.value_uint128().high() << 64) | i.value_uint128().low();
    return true;
  }
  return false;
}
static bool BitsOk(int b) { return b == 1 || b == 2 || b == 4 || b == 8 || b == 16 || b == 32 || b == 64 || b == 128; }
static bool Fits(u128 x, int bits) { return bits >= 128 || (x >> bits) == 0; }

static void JudgeMods(const std::vector<const ValueType*>& mods, double sec, double slack, Verdict* v) {
  if (mods.empty()) return;
  u128 n0 = 0;
  IntegerOf(mods[0]->int_mod_n().modulus(), &n0);
  bool same = true;
  for (auto* m : mods) {
    u128 n = 0;
    IntegerOf(m->int_mod_n().modulus(), &n);
    same &= n == n0 && m->int_mod_n().base_integer().bitsize() == mods[0]->int_mod_n().base_integer().bitsize();
  }
  if (!same) { v->unimplemented = true; return; }
  double sigma = Sigma((int)mods.size(), n0);
  if (sec > sigma + 1e-6) v->invalid = true;
  else if (sec + slack > sigma - 1e-6) v->maybe_invalid = true;
}
static void JudgeShape(const ValueType& t, Verdict* v) {
  switch (t.type_case()) {
    case ValueType::kInteger: if (!BitsOk(t.integer().bitsize())) v->invalid = true; break;
    case ValueType::kXorWrapper: if (!BitsOk(t.xor_wrapper().bitsize())) v->invalid = true; break;
    case ValueType::kIntModN: {
      int b = t.int_mod_n().base_integer().bitsize();
      u128 n;
      if (!BitsOk(b) || !IntegerOf(t.int_mod_n().modulus(), &n) || n == 0 || !Fits(n, b)) v->invalid = true;
      break;
    }
    case ValueType::kTuple:
      if (t.tuple().elements().empty()) v->invalid = true;
      for (auto& e : t.tuple().elements()) JudgeShape(e, v);
      break;
    default: v->invalid = true;
  }
}
// Only for well-shaped types. `slack`: nested elements share the security budget.
static void JudgeSecurity(const ValueType& t, double sec, double slack, Verdict* v) {
  if (t.type_case() == ValueType::kIntModN) { JudgeMods({&t}, sec, slack, v); return; }
  if (t.type_case() != ValueType::kTuple) return;
  std::vector<const ValueType*> mods;
  for (auto& e : t.tuple().elements())
    if (e.type_case() == ValueType::kIntModN) mods.push_back(&e);
    else JudgeSecurity(e, sec, slack + std::log2((double)t.tuple().elements_size()), v);
  JudgeMods(mods, sec, slack, v);
}
static Verdict Judge(const std::vector<DpfParameters>& ps) {
  Verdict v;
  if (ps.empty()) v.invalid = true;
  for (size_t i = 0; i < ps.size(); i++) {
    int l = ps[i].log_domain_size();
    double sec = ps[i].security_parameter();
    if (l < 0 || l > 128 || (i > 0 && l <= ps[i - 1].log_domain_size())) v.invalid = true;
    if (!(sec >= 0 && sec <= 128)) v.invalid = true;
    if (!ps[i].has_value_type()) { v.invalid = true; continue; }
    Verdict w;
    JudgeShape(ps[i].value_type(), &w);
    if (!w.invalid) JudgeSecurity(ps[i].value_type(), sec == 0 ? 40.0 + l : sec, 0, &w);
    v.invalid |= w.invalid;
    v.unimplemented |= w.unimplemented;
    v.maybe_invalid |= w.maybe_invalid;
  }
  return v;
}

static int DrawBits(Src& s, bool wild) {
  if (!wild) return 1 << s.Int(3, 7);
  switch (s.Draw(3)) {
    case 0: return 1 << s.Int(0, 8);
    case 1: return (int)s.Int(-2, 130);
    case 2: return (int)(int32_t)s.Edge(0xffffffff);
    default: return 1 << s.Int(0, 30);
  }
}
static ValueType DrawType(Src& s, int depth, bool wild, ValueType* last_mod) {
  ValueType t;
  bool odd = wild && s.Chance(1, 6);
  switch (s.Draw(depth > 0 ? 4 : 2)) {
    case 0: t.mutable_integer()->set_bitsize(DrawBits(s, odd)); break;
    case 1: t.mutable_xor_wrapper()->set_bitsize(DrawBits(s, odd)); break;
    case 2: {
      if (last_mod->has_int_mod_n() && s.Chance(3, 4)) { t = *last_mod; break; }
      auto* m = t.mutable_int_mod_n();
      int b = DrawBits(s, odd);
      m->mutable_base_integer()->set_bitsize(b);
      u128 max = b <= 0 || b >= 128 ? ~(u128)0 : ((u128)1 << b) - 1;
      u128 n = odd ? s.Edge128(~(u128)0) : s.Edge128(max - 1) + 1;
      if (odd && s.Chance(1, 4)) n = max + 1;
      if (odd && s.Chance(1, 6)) m->mutable_modulus();
      else if (odd && s.Chance(1, 6)) m->clear_modulus();
      else if (s.Bool()) SetInteger(m->mutable_modulus(), n);
      else { m->mutable_modulus()->mutable_value_uint128()->set_high((uint64_t)(n >> 64)); m->mutable_modulus()->mutable_value_uint128()->set_low((uint64_t)n); }
      *last_mod = t;
      break;
    }
    default: {
      t.mutable_tuple();
      for (int n = (int)s.Small(odd ? 0 : 1, 5); n > 0; n--) *t.mutable_tuple()->add_elements() = DrawType(s, depth - 1, wild, last_mod);
    }
  }
  if (odd && s.Chance(1, 8)) t.clear_type();
  return t;
}
static double DrawSec(Src& s) {
  switch (s.Draw(4)) {
    case 0: return 0;
    case 1: return (double)s.Int(1, 1024) / 8;
    case 2: return s.Pick({128.0, 128.0001, -0.0, 1e-300, 0.5, 127.99, 5e-324});
    case 3: return s.Pick({-1.0, -1e-300, 129.0, 1e308, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::nan(""), 200.0});
    default: return (double)s.Int(0, 128);
  }
}

static std::vector<DpfParameters> DrawAnyParams(Src& s) {
  bool wild = s.Bool();
  std::vector<DpfParameters> ps;
  int n = (int)s.Small(wild ? 0 : 1, 5), log = (int)s.Small(0, 100);
  for (int i = 0; i < n; i++) {
    DpfParameters p;
    p.set_log_domain_size(log);
    ValueType last;
    *p.mutable_value_type() = DrawType(s, (int)s.Draw(3), wild, &last);
    if (s.Chance(1, 3)) { double x = DrawSec(s); if (wild || (x >= 0 && x <= 128)) p.set_security_parameter(x); }
    if (wild && s.Chance(1, 12)) p.set_log_domain_size(s.Bool() ? (int)s.Int(-3, 132) : (int)(int32_t)s.Edge(0xffffffff));
    if (wild && s.Chance(1, 20)) p.clear_value_type();
    ps.push_back(p);
    log += (int)s.Small(1, 30);
    if (!wild && log > 128) break;
  }
  return ps;
}
static std::string ShowParams(const std::vector<DpfParameters>& ps) {
  std::string r;
  for (auto& p : ps) r += "{" + p.ShortDebugString() + "} ";
  return r;
}

CASE(parameters, 60000, 1700000) {
  auto ps = DrawAnyParams(s);
  NOTE(s, ShowParams(ps));
  Verdict v = Judge(ps);
  auto d = DistributedPointFunction::CreateIncremental(ps);
  auto check = [&](const absl::Status& st, const char* how) {
    if (!v.invalid && !v.unimplemented && !v.maybe_invalid) { REQUIRE(st.ok()) << how << ": valid parameters refused: " << st; return; }
    if (v.invalid || v.unimplemented) REQUIRE(!st.ok()) << how << ": invalid parameters accepted";
    if (st.ok()) return;
    bool code = ((v.invalid || v.maybe_invalid) && st.code() == absl::StatusCode::kInvalidArgument) ||
                (v.unimplemented && st.code() == absl::StatusCode::kUnimplemented);
    REQUIRE(code) << how << ": refused with " << st;
  };
  check(d.status(), "CreateIncremental");
  if (ps.size() == 1) check(DistributedPointFunction::Create(ps[0]).status(), "Create");
  s.NonTrivial(v.invalid || v.unimplemented);
  s.Label(v.invalid ? "invalid" : v.unimplemented ? "unimplemented" : v.maybe_invalid ? "borderline" : "valid");
  if (!d.ok()) return;
  // Usable, up to the types being registered.
  auto same = (*d)->parameters();
  REQUIRE(same.size() == ps.size());
  for (size_t i = 0; i < ps.size(); i++) REQUIRE(same[i].log_domain_size() == ps[i].log_domain_size());
  std::vector<Value> beta;
  std::function<Value(const ValueType&)> zero = [&](const ValueType& t) {
    Value r;
    if (t.has_integer()) r.mutable_integer()->set_value_uint64(0);
    else if (t.has_xor_wrapper()) r.mutable_xor_wrapper()->set_value_uint64(0);
    else if (t.has_int_mod_n()) r.mutable_int_mod_n()->set_value_uint64(0);
    else { r.mutable_tuple(); for (auto& e : t.tuple().elements()) *r.mutable_tuple()->add_elements() = zero(e); }
    return r;
  };
  bool builtin = true;
  for (auto& p : ps) {
    beta.push_back(zero(p.value_type()));
    builtin &= p.value_type().has_integer() && p.value_type().integer().bitsize() >= 8;
  }
  pbt::SeedRand(s.Draw(~0ull));
  auto k = (*d)->GenerateKeysIncremental(0, beta);
  if (builtin) REQUIRE(k.ok()) << "no key for the zero function: " << k.status();
  else if (!k.ok())
    REQUIRE(k.status().code() == absl::StatusCode::kUnimplemented || k.status().code() == absl::StatusCode::kFailedPrecondition)
        << "zero function refused: " << k.status();
}

// ---------------------------------------------------------------- values
static bool ValueOk(const Value& v, const ValueType& t) {
  u128 x;
  switch (t.type_case()) {
    case ValueType::kInteger: return v.has_integer() && IntegerOf(v.integer(), &x) && Fits(x, t.integer().bitsize());
    case ValueType::kXorWrapper: return v.has_xor_wrapper() && IntegerOf(v.xor_wrapper(), &x) && Fits(x, t.xor_wrapper().bitsize());
    case ValueType::kIntModN: {
      u128 n = 0;
      IntegerOf(t.int_mod_n().modulus(), &n);
      return v.has_int_mod_n() && IntegerOf(v.int_mod_n(), &x) && x < n;
    }
    default:
      if (!v.has_tuple() || v.tuple().elements_size() != t.tuple().elements_size()) return false;
      for (int i = 0; i < t.tuple().elements_size(); i++)
        if (!ValueOk(v.tuple().elements(i), t.tuple().elements(i))) return false;
      return true;
  }
}
static void MutateValue(Src& s, Value* v) {
  while (v->has_tuple() && v->tuple().elements_size() > 0 && s.Chance(3, 4))
    v = v->mutable_tuple()->mutable_elements((int)s.Draw(v->tuple().elements_size() - 1));
  u128 x = s.Edge128(~(u128)0);
  if (v->has_tuple()) {
    auto* e = v->mutable_tuple()->mutable_elements();
    switch (s.Draw(3)) {
      case 0: if (e->size()) e->RemoveLast(); break;
      case 1: { Value c; if (e->size()) c = e->Get(0); *e->Add() = c; break; }
      case 2: e->Clear(); break;
      default: SetInteger(v->mutable_integer(), x);
    }
    return;
  }
  bool mod = v->has_int_mod_n(), xr = v->has_xor_wrapper();
  auto* i = mod ? v->mutable_int_mod_n() : xr ? v->mutable_xor_wrapper() : v->mutable_integer();
  switch (s.Draw(5)) {
    case 0: SetInteger(i, x); break;
    case 1: i->clear_value(); break;
    case 2: v->clear_value(); break;
    case 3: { Value::Integer c = *i; if (mod) *v->mutable_integer() = c; else *v->mutable_int_mod_n() = c; break; }
    case 4: { Value::Integer c = *i; if (xr) *v->mutable_integer() = c; else *v->mutable_xor_wrapper() = c; break; }
    default: { Value c = *v; v->mutable_tuple(); *v->mutable_tuple()->add_elements() = c; }
  }
}

CASE(values, 30000, 700000) {
  Config c;
  GenOptions o;
  DrawParams(s, o, &c);
  auto d = DistributedPointFunction::CreateIncremental(c.params);
  REQUIRE(d.ok()) << d.status();
  bool registered = !s.Chance(1, 10);
  bool plain = true;
  for (auto* t : c.types) {
    if (registered) REQUIRE(t->reg(**d).ok());
    plain &= t->leaves.size() == 1 && !t->shape.tuple && t->leaves[0].kind == kInt;
  }
  int last = c.levels() - 1;
  u128 alpha = s.Edge128(c.MaxPoint(last));
  std::vector<Value> beta;
  for (auto* t : c.types) beta.push_back(ValueProto(t->shape, DrawValue(s, *t)));
  int how = (int)s.Draw(4);
  if (how == 1 && c.logs[last] < 128) alpha |= (u128)1 << s.Int(c.logs[last], 127);
  if (how == 2) MutateValue(s, &beta[s.Draw(last)]);
  if (how == 3) { if (s.Bool()) beta.pop_back(); else beta.push_back(beta[s.Draw(last)]); }
  if (how == 4 && last > 0) std::swap(beta[0], beta[s.Int(1, last)]);
  bool bad = alpha > c.MaxPoint(last) || (int)beta.size() != c.levels();
  for (int i = 0; !bad && i < c.levels(); i++) bad |= !ValueOk(beta[i], c.params[i].value_type());
  std::string show = Show(c);
  for (auto& b : beta) show += " {" + b.ShortDebugString() + "}";
  NOTE(s, show << " alpha=" << Str128(alpha) << (registered ? "" : " (types not registered)"));
  pbt::SeedRand(s.Draw(~0ull));
  auto k = (*d)->GenerateKeysIncremental(A(alpha), beta);
  if (bad && (registered || plain)) WantInvalid(k.status(), "alpha or beta");
  else if (bad) REQUIRE(!k.ok()) << "invalid alpha or beta accepted";
  else if (registered || plain) REQUIRE(k.ok()) << "valid function refused: " << k.status();
  else REQUIRE(!k.ok() && (k.status().code() == absl::StatusCode::kUnimplemented || k.status().code() == absl::StatusCode::kFailedPrecondition))
      << "types not registered: " << k.status();
  if (c.levels() == 1 && beta.size() == 1) {
    auto k1 = (*d)->GenerateKeys(A(alpha), beta[0]);
    REQUIRE(k1.status().code() == k.status().code()) << "GenerateKeys: " << k1.status() << " GenerateKeysIncremental: " << k.status();
  }
  s.NonTrivial(bad);
  s.Label(bad ? "refused" : registered || plain ? "accepted" : "not registered");
}

// ---------------------------------------------------------------- keys
static GenOptions Cheap() { GenOptions o; o.max_gap = 9; return o; }

struct Walk {     // an evaluation history
  EvaluationContext ctx;
  int level = -1;
  std::vector<u128> under;   // prefixes whose expansion is available: multiples handled by the caller
};

CASE(keys, 25000, 550000) {
  Config c;
  DrawParams(s, Cheap(), &c);
  MakeDpf(&c);
  DrawKeys(s, &c);
  DpfKey k = c.key[s.Bool()];
  auto* cw = k.mutable_correction_words();
  auto* lv = k.mutable_last_level_value_correction();
  int last = c.levels() - 1;
  // Correction words that carry value corrections, by level.
  std::vector<int> where;
  for (int i = 0; i < cw->size(); i++) if (cw->Get(i).value_correction_size()) where.push_back(i);
  REQUIRE((int)where.size() == last);
  bool bad = false;            // refused by everything
  int bad_level = -1;          // refused when this level is evaluated
  int how = (int)s.Draw(8);
  switch (how) {
    case 0: k.clear_seed(); bad = true; break;
    case 1: if (cw->size()) { cw->DeleteSubrange((int)s.Draw(cw->size() - 1), 1); bad = true; } break;
    case 2: { auto x = cw->size() ? cw->Get(0) : D::CorrectionWord(); *cw->Add() = x; bad = true; break; }
    case 3: lv->Clear(); bad = true; break;
    case 4: if (last) { cw->Mutable(where[s.Draw(last - 1)])->clear_value_correction(); bad = true; } break;
    case 5: if (cw->size()) cw->Mutable((int)s.Draw(cw->size() - 1))->clear_seed(); break;
    case 6: k.set_party((int)(int32_t)s.Edge(0xffffffff)); break;
    default: {
      int l = (int)s.Draw(last);
      auto* v = l == last ? lv : cw->Mutable(where[l])->mutable_value_correction();
      auto before = *v;
      if (how == 7) {
        switch (s.Draw(1)) {
          case 0: { Value x = v->Get(0); *v->Add() = x; break; }
          default: if (v->size() > 1) v->RemoveLast(); else { Value x = v->Get(0); *v->Add() = x; }
        }
        bad_level = l;
      } else {
        Value* x = v->Mutable((int)s.Draw(v->size() - 1));
        MutateValue(s, x);
        if (!ValueOk(*x, c.params[l].value_type())) bad_level = l;
      }
    }
  }
  NOTE(s, Show(c) << " change " << how << (bad ? " (malformed)" : bad_level >= 0 ? " (level " + std::to_string(bad_level) + " malformed)" : ""));
  // Everything that takes a key.
  auto ctx = c.dpf->CreateEvaluationContext(k);
  if (bad) WantInvalid(ctx.status(), "malformed key (CreateEvaluationContext)");
  else if (bad_level < 0) REQUIRE(ctx.ok()) << ctx.status();
  else WantAny(ctx.status());
  EvaluationContext by_hand;
  for (auto& p : c.params) *by_hand.add_parameters() = p;
  *by_hand.mutable_key() = k;
  by_hand.set_previous_hierarchy_level(-1);
  for (int l = 0; l <= last; l++) {
    std::vector<absl::uint128> pts = {A(DrawPoint(s, c, l)), A(s.Edge128(c.MaxPoint(l)))};
    auto r = c.types[l]->at(*c.dpf, k, l, pts);
    if (bad || bad_level == l) WantInvalid(r.status(), "malformed key (EvaluateAt)");
    else if (bad_level < 0) REQUIRE(r.ok()) << r.status();
    else WantAny(r.status());
    EvaluationContext cx = by_hand;
    auto q = c.types[l]->at_ctx(*c.dpf, l, pts, cx);
    if (bad || bad_level == l) WantInvalid(q.status(), "malformed key (EvaluateAt with context)");
    else if (bad_level < 0) REQUIRE(q.ok()) << q.status();
    else WantAny(q.status());
    if (q.ok() && r.ok()) REQUIRE(*q == *r) << "with and without context differ";
    if (c.logs[l] <= 12) {
      cx = by_hand;
      auto u = c.types[l]->until(*c.dpf, l, {}, cx);
      if (bad || bad_level == l) WantInvalid(u.status(), "malformed key (EvaluateUntil)");
      else if (bad_level < 0) REQUIRE(u.ok()) << u.status();
      else WantAny(u.status());
    }
  }
  bool one_type = true;
  for (auto* t : c.types) one_type &= t == c.types[0];
  if (one_type) {
    std::vector<const DpfKey*> keys;
    std::vector<absl::uint128> pts;
    int n = (int)s.Small(1, 4), at = (int)s.Draw(n - 1);
    for (int i = 0; i < n; i++) { keys.push_back(i == at ? &k : &c.key[s.Bool()]); pts.push_back(A(DrawPoint(s, c, last))); }
    std::vector<Results> out;
    absl::Status st = c.types[0]->apply(*c.dpf, keys, pts, 0, -1, &out, nullptr);
    if (bad || bad_level >= 0) WantInvalid(st, "malformed key (EvaluateAndApply)");
    else REQUIRE(st.ok()) << st;
  }
  s.NonTrivial(true);
  s.Label("change " + std::to_string(how));
}

// The same key, state and points objects used over and over with changing
// contents: what one call saw must not decide the next.
CASE(reused_objects, 8000, 170000) {
  Config c;
  GenOptions o = Cheap();
  o.max_levels = 3;
  DrawParams(s, o, &c);
  MakeDpf(&c);
  DrawKeys(s, &c);
  const int last = c.levels() - 1;
  DpfKey k;
  EvaluationContext ctx;
  std::vector<absl::uint128> pts;
  bool bad = true, was_good = false, was_bad = false;
  std::string hist;
  int party = 0;
  for (int steps = (int)s.Int(2, 8); steps > 0; steps--) {
    switch (s.Draw(3)) {
      case 0:
        party = (int)s.Draw(1);
        k = c.key[party];
        bad = false;
        hist += " good";
        break;
      case 1:
        k.clear_seed();
        bad = true;
        hist += " noseed";
        break;
      case 2:
        k = c.key[party];
        if (k.correction_words_size() > 0) k.mutable_correction_words()->RemoveLast();
        else k.add_correction_words();
        bad = true;
        hist += " words";
        break;
      default:
        k.clear_last_level_value_correction();
        bad = true;
        hist += " last";
    }
    if (!bad && was_bad) hist += "*";
    const int l = (int)s.Draw(last);
    pts.resize(s.Int(1, 3));
    for (auto& x : pts) x = A(DrawPoint(s, c, l));
    const DpfKey& other = c.key[1 - party];
    auto want = [&](const absl::StatusOr<Results>& r, const char* what) {
      if (bad) { WantInvalid(r.status(), std::string(what) + " after" + hist); return; }
      REQUIRE(r.ok()) << what << " after" << hist << ": " << r.status();
      auto q = c.types[l]->at(*c.dpf, other, l, pts);
      REQUIRE(q.ok() && q->size() == r->size());
      for (size_t i = 0; i < pts.size(); i++) {
        Leaves got = Add(c.types[l]->leaves, (*r)[i], (*q)[i]);
        REQUIRE(got == c.Expected(l, U(pts[i]))) << what << " after" << hist << ": " << Show(got);
      }
    };
    const int how = (int)s.Draw(3);
    hist += std::string(" ") + "aceb"[how];
    NOTE(s, Show(c) << hist);
    switch (how) {
      case 0:
        want(c.types[l]->at(*c.dpf, k, l, pts), "EvaluateAt");
        break;
      case 1: {
        auto made = c.dpf->CreateEvaluationContext(k);
        if (bad) WantInvalid(made.status(), "CreateEvaluationContext after" + hist);
        else REQUIRE(made.ok()) << made.status() << " after" << hist;
        if (made.ok()) ctx = *made;
        break;
      }
      case 2: {
        if (ctx.parameters_size() == 0) for (auto& p : c.params) *ctx.add_parameters() = p;
        *ctx.mutable_key() = k;
        ctx.clear_partial_evaluations();
        ctx.set_previous_hierarchy_level(-1);
        want(c.types[l]->at_ctx(*c.dpf, l, pts, ctx), "EvaluateAt with context");
        break;
      }
      default: {
        bool one_type = true;
        for (auto* t : c.types) one_type &= t == c.types[0];
        if (!one_type) break;
        for (auto& x : pts) x = A(DrawPoint(s, c, last));
        std::vector<const DpfKey*> keys(pts.size(), &k);
        std::vector<Results> out;
        absl::Status st = c.types[0]->apply(*c.dpf, keys, pts, 0, -1, &out, nullptr);
        if (bad) WantInvalid(st, "EvaluateAndApply after" + hist);
        else REQUIRE(st.ok()) << st << " after" << hist;
      }
    }
    was_good |= !bad;
    was_bad |= bad;
  }
  s.NonTrivial(was_good && was_bad);
}

// ---------------------------------------------------------------- requests
// Levels, points, counts and types that do not fit the function.
CASE(requests, 25000, 550000) {
  Config c;
  DrawParams(s, Cheap(), &c);
  MakeDpf(&c);
  DrawKeys(s, &c);
  int last = c.levels() - 1;
  const DpfKey& k = c.key[s.Bool()];
  bool bad = false;
  int level = (int)s.Draw(last), real = level;
  const TypeOps* t = c.types[level];
  std::vector<absl::uint128> pts;
  int n = (int)s.Small(1, 5);
  for (int i = 0; i < n; i++) pts.push_back(A(DrawPoint(s, c, level)));
  int how = (int)s.Draw(2);
  switch (how) {
    case 0: {
      level = s.Bool() ? (int)s.Int(-3, last + 3) : (int)(int32_t)s.Edge(0xffffffff);
      if (level >= 0 && level <= last) { t = c.types[level]; for (auto& p : pts) p = A(U(p) & c.MaxPoint(level)); real = level; }
      else bad = true;
      break;
    }
    case 1:
      if (c.logs[level] < 128) { auto& p = pts[s.Draw(n - 1)]; p = A(U(p) | (u128)1 << s.Int(c.logs[level], 127)); bad = true; }
      break;
    default:
      t = &s.Pick(Types());
      bad = t->type.SerializeAsString() != c.types[level]->type.SerializeAsString();
  }
  NOTE(s, Show(c) << " as " << t->name << " at level " << level << ", " << n << " points, first " << Str128(U(pts[0])));
  auto check = [&](const absl::Status& st, const char* what) {
    if (bad) WantInvalid(st, std::string("bad request to ") + what); else REQUIRE(st.ok()) << what << ": " << st;
  };
  check(t->at(*c.dpf, k, level, pts).status(), "EvaluateAt");
  auto cx = c.dpf->CreateEvaluationContext(k);
  REQUIRE(cx.ok()) << cx.status();
  EvaluationContext cc = *cx;
  check(t->at_ctx(*c.dpf, level, pts, cc).status(), "EvaluateAt with context");
  if (how != 1 && c.logs[real] <= 12) {
    cc = *cx;
    check(t->until(*c.dpf, level, {}, cc).status(), "EvaluateUntil");
  }
  if (how == 2) {
    bool same = true;
    for (auto* u : c.types) same &= u->type.SerializeAsString() == t->type.SerializeAsString();
    std::vector<const DpfKey*> keys(n, &k);
    for (auto& p : pts) p = A(s.Edge128(c.MaxPoint(last)));
    std::vector<Results> out;
    absl::Status st = t->apply(*c.dpf, keys, pts, 0, -1, &out, nullptr);
    if (same) REQUIRE(st.ok()) << st; else WantInvalid(st, "EvaluateAndApply with another type");
  } else {
    bool one = true;
    for (auto* u : c.types) one &= u == c.types[0];
    if (one) {
      // Counts and points.
      std::vector<absl::uint128> xs;
      bool out_of_domain = false;
      int shift = (int)s.Small(0, 3), bits = c.logs[last] + shift;
      for (int i = 0; i < n; i++) {
        u128 x = s.Edge128(c.MaxPoint(last));
        x = shift ? (x << shift) | s.Draw((1 << shift) - 1) : x;
        if (bits < 128 && s.Chance(1, 4)) { x |= (u128)1 << s.Int(bits, 127); out_of_domain = true; }
        xs.push_back(A(x));
      }
      std::vector<const DpfKey*> keys((size_t)(s.Chance(1, 3) ? s.Small(0, 6) : n), &k);
      std::vector<Results> out;
      absl::Status st = c.types[0]->apply(*c.dpf, keys, xs, shift, -1, &out, nullptr);
      if (out_of_domain || (int)keys.size() != n) WantInvalid(st, "EvaluateAndApply");
      else REQUIRE(st.ok()) << st;
    }
  }
  s.NonTrivial(bad);
  s.Label(std::string(bad ? "refused" : "accepted") + " " + std::to_string(how));
}

// ---------------------------------------------------------------- long lists
// Everything that takes a list must check all of it: long lists that are valid
// but for one entry, at the end or anywhere.
static int DrawAt(Src& s, int n) { return s.Chance(1, 3) ? n - 1 : (int)s.Draw(n - 1); }
static void LongLevels(Src& s, Config* c, int max_levels, int max_first) {
  int n = (int)s.Int(1, max_levels), log = (int)s.Small(0, max_first);
  bool same = s.Bool();
  const TypeOps* t = &s.Pick(Types());
  for (int i = 0; i < n && log <= 128; i++) {
    if (!same && s.Chance(1, 3)) t = &s.Pick(Types());
    c->types.push_back(t);
    c->logs.push_back(log);
    c->params.push_back(MakeParams(log, *t, DrawSecurity(s, *t, log)));
    log += (int)s.Small(1, 4);
  }
}
CASE(long_parameters, 40000, 1000000) {
  Config c;
  LongLevels(s, &c, 60, 8);
  int n = c.levels(), at = DrawAt(s, n);
  auto& p = c.params[at];
  int how = (int)s.Draw(6);
  switch (how) {
    case 0: if (at) p.set_log_domain_size(c.logs[at - 1] - (int)s.Draw(1)); else p.set_log_domain_size(-1); break;
    case 1: p.set_log_domain_size(s.Pick({-1, 129, 1 << 20})); break;
    case 2: p.set_security_parameter(s.Pick({-1.0, 128.5, std::nan(""), 1e9})); break;
    case 3: p.clear_value_type(); break;
    case 4: p.mutable_value_type()->mutable_integer()->set_bitsize(s.Pick({0, 3, 24, 256, -8})); break;
    case 5: {
      // One bad element in a wide tuple.
      auto* tu = p.mutable_value_type()->mutable_tuple();
      tu->Clear();
      int m = (int)s.Int(1, 40);
      for (int i = 0; i < m; i++) tu->add_elements()->mutable_integer()->set_bitsize(8 << s.Draw(4));
      auto* e = tu->mutable_elements(DrawAt(s, m));
      switch (s.Draw(2)) {
        case 0: e->clear_type(); break;
        case 1: e->mutable_xor_wrapper()->set_bitsize(7); break;
        default: e->mutable_tuple();
      }
      break;
    }
    default: break;   // all valid
  }
  NOTE(s, n << " levels, change " << how << " at " << at << ": " << ShowParams({c.params[at]}));
  auto d = DistributedPointFunction::CreateIncremental(c.params);
  if (how == 6) REQUIRE(d.ok()) << d.status(); else WantInvalid(d.status(), "one bad level among " + std::to_string(n));
  s.NonTrivial(how < 6 && at > 0);
}
CASE(long_values, 150000, 3000000) {
  // Wide tuples, against the model of valid values.
  ValueType t;
  Value v;
  int m = (int)s.Int(1, 60);
  u128 n = s.Edge128(0xffffffff - 1) + 1;
  for (int i = 0; i < m; i++) {
    auto* e = t.mutable_tuple()->add_elements();
    auto* x = v.mutable_tuple()->add_elements();
    int b = 8 << s.Draw(4);
    u128 max = b == 128 ? ~(u128)0 : ((u128)1 << b) - 1;
    switch (s.Draw(2)) {
      case 0: e->mutable_integer()->set_bitsize(b); SetInteger(x->mutable_integer(), s.Edge128(max)); break;
      case 1: e->mutable_xor_wrapper()->set_bitsize(b); SetInteger(x->mutable_xor_wrapper(), s.Edge128(max)); break;
      default:
        e->mutable_int_mod_n()->mutable_base_integer()->set_bitsize(32);
        SetInteger(e->mutable_int_mod_n()->mutable_modulus(), n);
        SetInteger(x->mutable_int_mod_n(), s.Edge128(n - 1));
    }
  }
  if (s.Chance(1, 3)) {   // nested
    ValueType o; Value w;
    int before = (int)s.Small(0, 5);
    for (int i = 0; i < before; i++) { o.mutable_tuple()->add_elements()->mutable_integer()->set_bitsize(8); SetInteger(w.mutable_tuple()->add_elements()->mutable_integer(), 1); }
    *o.mutable_tuple()->add_elements() = t;
    *w.mutable_tuple()->add_elements() = v;
    t = o; v = w;
  }
  if (s.Chance(4, 5)) {
    Value* x = &v;
    while (x->has_tuple() && s.Chance(7, 8)) x = x->mutable_tuple()->mutable_elements(DrawAt(s, x->tuple().elements_size()));
    MutateValue(s, x);
  }
  bool ok = ValueOk(v, t);
  NOTE(s, m << " elements, " << (ok ? "valid" : "invalid") << ": " << v.ShortDebugString());
  absl::Status st = D::dpf_internal::ProtoValidator::ValidateValue(v, t);
  if (ok) REQUIRE(st.ok()) << st; else WantInvalid(st, "one bad element in a tuple of " + std::to_string(m));
  s.NonTrivial(!ok && m > 1);
}
CASE(long_keys, 24000, 500000) {
  Config c;
  LongLevels(s, &c, 40, 8);
  MakeDpf(&c);
  int last = c.levels() - 1;
  c.alpha = s.Edge128(c.MaxPoint(last));
  std::vector<Value> beta;
  for (auto* t : c.types) { c.beta.push_back(DrawValue(s, *t)); beta.push_back(ValueProto(t->shape, c.beta.back())); }
  pbt::SeedRand(s.Draw(~0ull));
  int at = DrawAt(s, last + 1), how = (int)s.Draw(4);
  NOTE(s, last + 1 << " levels, change " << how << " at " << at << Show(c));
  s.NonTrivial(at > 1);
  if (how == 0) {
    MutateValue(s, &beta[at]);
    bool bad = !ValueOk(beta[at], c.params[at].value_type());
    auto k = c.dpf->GenerateKeysIncremental(A(c.alpha), beta);
    if (bad) WantInvalid(k.status(), "one bad value among " + std::to_string(beta.size())); else REQUIRE(k.ok()) << k.status();
    return;
  }
  auto made = c.dpf->GenerateKeysIncremental(A(c.alpha), beta);
  REQUIRE(made.ok()) << made.status();
  DpfKey k = s.Bool() ? made->first : made->second;
  std::vector<int> where;
  for (int i = 0; i < k.correction_words_size(); i++) if (k.correction_words(i).value_correction_size()) where.push_back(i);
  REQUIRE((int)where.size() == last);
  if (how == 1) {
    if (at == last) k.clear_last_level_value_correction(); else k.mutable_correction_words(where[at])->clear_value_correction();
    WantInvalid(c.dpf->CreateEvaluationContext(k).status(), "key without the value correction of one level");
    if (c.logs[0] <= 8) {
      EvaluationContext cx;
      for (auto& p : c.params) *cx.add_parameters() = p;
      *cx.mutable_key() = k;
      cx.set_previous_hierarchy_level(-1);
      WantInvalid(c.types[0]->until(*c.dpf, 0, {}, cx).status(), "EvaluateUntil: key without the value correction of one level");
    }
    WantInvalid(c.types[0]->at(*c.dpf, k, 0, {absl::uint128(0)}).status(), "EvaluateAt: key without the value correction of one level");
    return;
  }
  auto ctx = c.dpf->CreateEvaluationContext(k);
  REQUIRE(ctx.ok()) << ctx.status();
  auto* p = ctx->mutable_parameters(at);
  switch (how) {
    case 2: p->set_log_domain_size(p->log_domain_size() + (s.Bool() ? 1 : -1)); break;
    case 3: p->set_security_parameter((p->security_parameter() == 0 ? 40.0 + c.logs[at] : p->security_parameter()) + s.Pick({0.5, -0.5, 1.0})); break;
    default: p->mutable_value_type()->clear_type();
  }
  WantInvalid(c.types[0]->until(*c.dpf, 0, {}, *ctx).status(), "state whose parameters differ at one level");
}
CASE(long_points, 60000, 1200000) {
  Config c;
  GenOptions o = Cheap();
  int how = (int)s.Draw(3);
  o.max_levels = 3;
  o.same_type = how == 3 || s.Bool();
  if (how == 2) { o.max_levels = 6; o.max_gap = 11; o.min_log = (int)s.Pick({0, 10}); }
  DrawParams(s, o, &c);
  MakeDpf(&c);
  DrawKeys(s, &c);
  int last = c.levels() - 1;
  const DpfKey& k = c.key[s.Bool()];
  int n = (int)s.Int(1, s.Chance(1, 4) ? 400 : 80), at = DrawAt(s, n);
  bool bad = s.Chance(3, 4);
  if (how <= 1) {   // points
    int level = (int)s.Draw(last);
    std::vector<absl::uint128> pts;
    for (int i = 0; i < n; i++) pts.push_back(A(DrawPoint(s, c, level)));
    if (c.logs[level] == 128) bad = false;
    if (bad) pts[at] = A(U(pts[at]) | (u128)1 << s.Int(c.logs[level], 127));
    NOTE(s, Show(c) << " " << n << " points at level " << level << (bad ? ", bad at " + std::to_string(at) : std::string()));
    if (how == 0) {
      auto r = c.types[level]->at(*c.dpf, k, level, pts);
      if (bad) WantInvalid(r.status(), "EvaluateAt"); else REQUIRE(r.ok()) << r.status();
    } else {
      auto cx = c.dpf->CreateEvaluationContext(k);
      REQUIRE(cx.ok());
      auto r = c.types[level]->at_ctx(*c.dpf, level, pts, *cx);
      if (bad) WantInvalid(r.status(), "EvaluateAt with context"); else REQUIRE(r.ok()) << r.status();
    }
  } else if (how == 2) {   // prefixes
    if (last < 1 || c.logs[0] > 12) { s.Label("no prefixes"); return; }
    auto cx = c.dpf->CreateEvaluationContext(k);
    REQUIRE(cx.ok());
    REQUIRE(c.types[0]->until(*c.dpf, 0, {}, *cx).ok());
    int level = 0;
    std::vector<absl::uint128> pre;
    u128 base = DrawPoint(s, c, 0);
    bool near = s.Bool();
    for (int i = 0; i < n; i++) pre.push_back(A(near ? base ^ s.Draw(std::min<uint64_t>(7, (uint64_t)c.MaxPoint(0))) : DrawPoint(s, c, 0)));
    bool second = last >= 2 && s.Chance(3, 4), foreign = false;
    if (second) {
      REQUIRE(c.types[1]->until(*c.dpf, 1, pre, *cx).ok());
      int sh = c.logs[1] - c.logs[0];
      std::vector<absl::uint128> next;
      for (int i = 0; i < n; i++) next.push_back(A((U(pre[s.Draw(n - 1)]) << sh) | s.Draw(((uint64_t)1 << sh) - 1)));
      if (s.Bool() && bad && c.logs[0] > 6) {
        // In the domain, but below a prefix that was not evaluated (and far
        // enough from those that were to be in another block).
        u128 x = s.Edge128(c.MaxPoint(0));
        bool close = false;
        for (auto p : pre) close |= (U(p) >> 5) == (x >> 5);
        if (!close) { next[at] = A(x << sh); foreign = true; }
      }
      pre = next;
      level = 1;
    }
    if (bad && !foreign) pre[at] = A(U(pre[at]) | (u128)1 << s.Int(c.logs[level], 127));
    NOTE(s, Show(c) << " " << n << " prefixes of level " << level << (bad ? ", bad at " + std::to_string(at) : std::string()));
    auto r = c.types[level + 1]->until(*c.dpf, level + 1, pre, *cx);
    if (bad) WantInvalid(r.status(), "EvaluateUntil"); else REQUIRE(r.ok()) << r.status();
    s.Label(foreign ? "foreign prefix" : second ? "second prefixes" : "first prefixes");
  } else {   // batch
    for (auto* t : c.types) if (t != c.types[0]) { s.Label("several types"); return; }
    n = std::min(n, 80);
    at = std::min(at, n - 1);
    std::vector<const DpfKey*> keys;
    std::vector<absl::uint128> pts;
    DpfKey broken = k;
    for (int i = 0; i < n; i++) { keys.push_back(&c.key[s.Bool()]); pts.push_back(A(DrawPoint(s, c, last))); }
    bool point = s.Bool() && c.logs[last] < 128;
    if (bad && point) pts[at] = A(U(pts[at]) | (u128)1 << s.Int(c.logs[last], 127));
    else if (bad) {
      switch (s.Draw(2)) {
        case 0: broken.clear_seed(); break;
        case 1: broken.add_correction_words(); break;
        default: broken.clear_last_level_value_correction();
      }
      keys[at] = &broken;
    }
    NOTE(s, Show(c) << " batch of " << n << (bad ? std::string(point ? ", bad point at " : ", bad key at ") + std::to_string(at) : std::string()));
    std::vector<Results> out;
    absl::Status st = c.types[0]->apply(*c.dpf, keys, pts, 0, -1, &out, nullptr);
    if (bad) WantInvalid(st, "EvaluateAndApply"); else REQUIRE(st.ok()) << st;
  }
  s.NonTrivial(bad && n > 8);
}

// ---------------------------------------------------------------- states
// A history, a change to its state, and a further step.
CASE(states, 30000, 700000) {
  Config c;
  GenOptions o = Cheap();
  o.max_levels = 5;
  DrawParams(s, o, &c);
  MakeDpf(&c);
  DrawKeys(s, &c);
  int last = c.levels() - 1;
  const DpfKey& k = c.key[s.Bool()];
  auto made = c.dpf->CreateEvaluationContext(k);
  REQUIRE(made.ok()) << made.status();
  EvaluationContext ctx = *made;
  int prev = -1, stored = -1;   // level last evaluated; level of the partial evaluations
  bool by_points = s.Bool();
  std::vector<u128> avail;      // prefixes whose states are stored, at level `stored`
  std::string hist;
  // Valid steps first.
  std::vector<u128> last_pts;
  for (int steps = (int)s.Small(0, 3); steps > 0 && prev < last; steps--) {
    int l = (int)s.Int(prev + 1, last);
    if (by_points) {
      std::vector<absl::uint128> pts;
      std::vector<u128> now;
      for (int i = (int)s.Small(1, 4); i > 0; i--) {
        u128 x = DrawPoint(s, c, l);
        if (stored >= 0) {
          int sh = c.logs[l] - c.logs[stored];
          u128 p = avail[s.Draw(avail.size() - 1)];
          x = sh >= 128 ? x : ((p << sh) | (x & (((u128)1 << sh) - 1)));
        }
        now.push_back(x);
        pts.push_back(A(x));
      }
      auto r = c.types[l]->at_ctx(*c.dpf, l, pts, ctx);
      REQUIRE(r.ok()) << r.status();
      avail = now;
      stored = l;
      hist += " at(" + std::to_string(l) + ")";
    } else {
      if (prev < 0 && c.logs[l] > 12) break;
      if (prev >= 0 && c.logs[l] - c.logs[prev] > 12) break;
      std::vector<absl::uint128> pre;
      std::vector<u128> now;
      if (prev >= 0) {
        for (int i = (int)s.Small(1, 4); i > 0; i--) {
          u128 x = DrawPoint(s, c, prev);
          if (stored >= 0) {
            int sh = c.logs[prev] - c.logs[stored];
            x = (avail[s.Draw(avail.size() - 1)] << sh) | (x & (((u128)1 << sh) - 1));
          }
          pre.push_back(A(x));
          now.push_back(x);
        }
      }
      auto r = c.types[l]->until(*c.dpf, l, pre, ctx);
      REQUIRE(r.ok()) << r.status();
      if (prev >= 0) { avail = now; stored = prev; }
      hist += " until(" + std::to_string(l) + "," + std::to_string(pre.size()) + ")";
    }
    prev = l;
  }
  REQUIRE(ctx.previous_hierarchy_level() == prev || prev < 0);
  // The change.
  EvaluationContext bad = ctx;
  bool refuse_until = false, refuse_at = false, same_result = false, params_only = false;
  int how = (int)s.Draw(11);
  auto* pe = bad.mutable_partial_evaluations();
  std::string what;
  switch (how) {
    case 0: {
      what = "parameters";
      params_only = true;
      int i = (int)s.Draw(last);
      auto* p = bad.mutable_parameters(i);
      switch (s.Draw(5)) {
        case 0: bad.mutable_parameters()->DeleteSubrange(i, 1); refuse_until = true; break;
        case 1: { DpfParameters q = *p; *bad.add_parameters() = q; refuse_until = true; break; }
        case 2: p->set_log_domain_size(p->log_domain_size() ^ (1 << s.Int(0, 30))); refuse_until = true; break;
        case 3: {
          double d = p->security_parameter(), e = d == 0 ? 40.0 + p->log_domain_size() : d;
          p->set_security_parameter(e + s.Pick({1.0, -1.0, 0.5, 1000.0, std::nan("")}));
          refuse_until = true;
          break;
        }
        case 4: {
          const TypeOps& t = s.Pick(Types());
          refuse_until = t.type.SerializeAsString() != p->value_type().SerializeAsString();
          *p->mutable_value_type() = t.type;
          same_result = !refuse_until;
          break;
        }
        default: p->mutable_value_type()->clear_type(); refuse_until = true;
      }
      break;
    }
    case 1: {
      what = "default security parameter spelled out or left out";
      params_only = same_result = true;
      for (int i = 0; i <= last; i++) {
        auto* p = bad.mutable_parameters(i);
        double def = 40.0 + p->log_domain_size();
        if (p->security_parameter() == 0) p->set_security_parameter(def);
        else if (p->security_parameter() == def) p->set_security_parameter(0);
      }
      break;
    }
    case 2: what = "no key"; bad.clear_key(); refuse_until = refuse_at = true; break;
    case 3: what = "key without seed"; bad.mutable_key()->clear_seed(); refuse_until = refuse_at = true; break;
    case 4: {
      int p = s.Bool() ? (int)s.Int(-3, last + 3) : (int)(int32_t)s.Edge(0xffffffff);
      what = "previous level " + std::to_string(p);
      bad.set_previous_hierarchy_level(p);
      if (p >= last) refuse_until = true;
      break;
    }
    case 5: {
      int p = s.Bool() ? (int)s.Int(-3, last + 3) : (int)(int32_t)s.Edge(0xffffffff);
      what = "partial evaluations' level " + std::to_string(p);
      if (pe->empty()) same_result = true;             // documented as ignored then
      else {
        if (p > prev || p < 0) refuse_until = true;
        if (p > last || p < 0) refuse_at = true;
      }
      bad.set_partial_evaluations_level(p);
      break;
    }
    case 6:
      what = "partial evaluations reordered";
      same_result = true;
      for (int i = pe->size() - 1; i > 0; i--) pe->SwapElements(i, (int)s.Draw(i));
      break;
    case 7:
      what = "partial evaluation repeated";
      same_result = true;
      if (pe->size()) { auto x = pe->Get((int)s.Draw(pe->size() - 1)); *pe->Add() = x; pe->SwapElements(pe->size() - 1, (int)s.Draw(pe->size() - 1)); }
      break;
    case 8:
      what = "partial evaluation repeated with another state";
      if (pe->size()) {
        auto x = pe->Get((int)s.Draw(pe->size() - 1));
        if (s.Bool()) x.set_control_bit(!x.control_bit());
        else if (s.Bool()) x.mutable_seed()->set_low(x.seed().low() ^ (1ull << s.Int(0, 63)));
        else x.mutable_seed()->set_high(x.seed().high() ^ (1ull << s.Int(0, 63)));
        *pe->Add() = x;
        pe->SwapElements(pe->size() - 1, (int)s.Draw(pe->size() - 1));
        refuse_until = refuse_at = true;
      } else same_result = true;
      break;
    case 9:
      what = "partial evaluation for another prefix";
      if (pe->size()) {
        auto* b = pe->Mutable((int)s.Draw(pe->size() - 1))->mutable_prefix();
        if (s.Bool()) b->set_low(b->low() ^ (1ull << s.Int(0, 63))); else b->set_high(b->high() ^ (1ull << s.Int(0, 63)));
      }
      break;
    case 10:
      what = "partial evaluation without fields";
      if (pe->size()) {
        auto* x = pe->Mutable((int)s.Draw(pe->size() - 1));
        switch (s.Draw(2)) { case 0: x->clear_prefix(); break; case 1: x->clear_seed(); break; default: x->Clear(); }
      }
      break;
    default:
      what = "only one partial evaluation left";
      if (pe->size()) { auto x = pe->Get((int)s.Draw(pe->size() - 1)); pe->Clear(); *pe->Add() = x; }
  }
  NOTE(s, Show(c) << hist << " then: " << what);
  s.Label(what.substr(0, 14));
  s.NonTrivial(true);
  // The step, by points.
  {
    int l = (int)s.Int(by_points ? std::max(stored, 0) : 0, last);
    std::vector<absl::uint128> pts;
    std::vector<u128> from;
    for (int i = (int)s.Small(1, 4); i > 0; i--) {
      u128 x = DrawPoint(s, c, l);
      if (stored >= 0 && l >= stored) {
        int sh = c.logs[l] - c.logs[stored];
        x = (avail[s.Draw(avail.size() - 1)] << sh) | (x & (((u128)1 << sh) - 1));
      }
      pts.push_back(A(x));
    }
    EvaluationContext a = bad, b = ctx;
    auto r = c.types[l]->at_ctx(*c.dpf, l, pts, a);
    auto w = c.types[l]->at_ctx(*c.dpf, l, pts, b);
    REQUIRE(w.ok()) << "valid step refused: " << w.status();
    bool uses = stored >= 0 && l > stored;   // states from an earlier level are only read below it
    if (refuse_at && (how <= 3 || how == 5 || uses)) WantInvalid(r.status(), "EvaluateAt in a state with " + what);
    else if (same_result) { REQUIRE(r.ok()) << r.status(); REQUIRE(*r == *w) << "EvaluateAt gives another result"; }
    else WantAny(r.status());
    if (params_only) WantAny(r.status());
  }
  // The step, by prefixes.
  if (prev < last) {
    int l = (int)s.Int(prev + 1, last);
    int gap = c.logs[l] - (prev < 0 ? 0 : c.logs[prev]);
    if (gap > 12) return;
    std::vector<absl::uint128> pre;
    if (prev >= 0)
      for (int i = (int)s.Small(1, 3); i > 0; i--) {
        u128 x = DrawPoint(s, c, prev);
        if (stored >= 0) {
          int sh = c.logs[prev] - c.logs[stored];
          x = (avail[s.Draw(avail.size() - 1)] << sh) | (x & (((u128)1 << sh) - 1));
        }
        pre.push_back(A(x));
      }
    int p = bad.previous_hierarchy_level();
    // Sizes of what a changed state would make the library expand.
    if (p >= 0 && p < last && l > p && c.logs[l] - c.logs[p] > 14) return;
    if (p < 0 && c.logs[l] > 14) return;
    EvaluationContext a = bad, b = ctx;
    auto r = c.types[l]->until(*c.dpf, l, pre, a);
    auto w = c.types[l]->until(*c.dpf, l, pre, b);
    REQUIRE(w.ok()) << "valid step refused: " << w.status();
    if (how == 4 && ((p < 0) != pre.empty() || l <= p)) refuse_until = true;
    bool reads = !pre.empty() && stored >= 0;
    if (refuse_until && (how <= 5 || reads)) WantInvalid(r.status(), "EvaluateUntil in a state with " + what);
    else if (same_result) { REQUIRE(r.ok()) << r.status(); REQUIRE(*r == *w) << "EvaluateUntil gives another result"; }
    else WantAny(r.status());
  }
}

// Prefixes that the history does not cover, levels out of order, finished states.
CASE(histories, 20000, 420000) {
  Config c;
  GenOptions o = Cheap();
  o.max_levels = 5;
  DrawParams(s, o, &c);
  MakeDpf(&c);
  DrawKeys(s, &c);
  int last = c.levels() - 1;
  auto made = c.dpf->CreateEvaluationContext(c.key[s.Bool()]);
  REQUIRE(made.ok()) << made.status();
  EvaluationContext ctx = *made;
  int prev = -1, stored = -1;
  std::vector<u128> avail;
  std::string hist;
  bool any_bad = false;
  for (int steps = (int)s.Int(1, 6); steps > 0; steps--) {
    int l = s.Chance(1, 4) ? (int)s.Int(-1, last + 1) : prev < last ? (int)s.Int(prev + 1, last) : last;
    const TypeOps* t = l >= 0 && l <= last && !s.Chance(1, 10) ? c.types[l] : &s.Pick(Types());
    std::vector<absl::uint128> pre;
    int n = prev < 0 ? (s.Chance(1, 6) ? (int)s.Int(1, 2) : 0) : (s.Chance(1, 10) ? 0 : (int)s.Small(1, 4));
    bool range = false, foreign = false;
    for (int i = 0; i < n; i++) {
      u128 x = prev < 0 ? s.Edge128(3) : DrawPoint(s, c, prev);
      if (prev >= 0 && stored >= 0 && !s.Chance(1, 5)) {
        int sh = c.logs[prev] - c.logs[stored];
        x = (avail[s.Draw(avail.size() - 1)] << sh) | (x & (((u128)1 << sh) - 1));
      }
      if (prev >= 0 && c.logs[prev] < 128 && s.Chance(1, 12)) { x |= (u128)1 << s.Int(c.logs[prev], 127); range = true; }
      else if (prev >= 0 && stored >= 0) {
        // Not covered: another block of the stored level's tree.
        int pack = 7;   // at most 2^7 elements share a block (1-bit types do not occur)
        int sh = c.logs[prev] - c.logs[stored];
        bool close = false;
        for (u128 a : avail) close |= ((x >> sh) >> pack) == (a >> pack);
        bool covered = false;
        for (u128 a : avail) covered |= (x >> sh) == a;
        if (!covered) foreign = true;
        if (!covered && close) { x = avail[0] << sh; foreign = false; }
        if (foreign) { pre.push_back(A(x)); break; }
      }
      pre.push_back(A(x));
    }
    bool bad = l < 0 || l > last || prev == last || (l >= 0 && l <= prev) || (prev < 0) != pre.empty() || range || foreign;
    if (l >= 0 && l <= last) bad |= t->type.SerializeAsString() != c.types[l]->type.SerializeAsString();
    if (!bad) {
      int gap = c.logs[l] - (prev < 0 ? 0 : c.logs[prev]);
      if (gap > 12 && gap < 63) break;
      bad = gap >= 63;
    }
    hist += " until(" + std::to_string(l) + ", " + std::to_string(pre.size()) + " prefixes, " + t->name.substr(0, 24) + ")" + (bad ? "!" : "");
    NOTE(s, (prev < 0 ? Show(c) : std::string()) << hist);
    auto r = t->until(*c.dpf, l, pre, ctx);
    if (bad) {
      WantInvalid(r.status(), "step" + hist);
      any_bad = true;
      continue;
    }
    REQUIRE(r.ok()) << "valid step refused after" << hist << ": " << r.status();
    if (prev >= 0) {
      avail.clear();
      for (auto& p : pre) avail.push_back(U(p));
      stored = prev;
    }
    prev = l;
  }
  s.NonTrivial(any_bad);
}

// ---------------------------------------------------------------- bytes
static std::string MutateBytes(Src& s, std::string b) {
  for (int n = (int)s.Small(1, 8); n > 0; n--) {
    size_t at = b.empty() ? 0 : s.Draw(b.size() - 1);
    switch (s.Draw(6)) {
      case 0: if (!b.empty()) b[at] ^= (char)(1 << s.Int(0, 7)); break;
      case 1: if (!b.empty()) b[at] = (char)s.Draw(255); break;
      case 2: b.insert(at, 1, (char)s.Draw(255)); break;
      case 3: if (!b.empty()) b.erase(at, (size_t)s.Small(1, 8)); break;
      case 4: if (!b.empty()) b.insert(s.Draw(b.size() - 1), b.substr(at, (size_t)s.Small(1, 40))); break;
      case 5: if (!b.empty()) b[at] = s.Pick({'\xff', '\x7f', '\x80', '\0', '\1'}); break;
      default: b.resize(at);
    }
  }
  return b;
}
CASE(bytes, 30000, 800000) {
  Config c;
  DrawParams(s, Cheap(), &c);
  MakeDpf(&c);
  DrawKeys(s, &c);
  int last = c.levels() - 1;
  int which = (int)s.Draw(2);
  s.Label(std::string("bytes of ") + (which == 0 ? "parameters" : which == 1 ? "key" : "state"));
  if (which == 0) {
    std::vector<DpfParameters> ps;
    for (auto& p : c.params) {
      DpfParameters q;
      std::string b = s.Bool() ? MutateBytes(s, p.SerializeAsString()) : p.SerializeAsString();
      q.ParsePartialFromString(b);
      ps.push_back(q);
    }
    NOTE(s, ShowParams(ps));
    Verdict v = Judge(ps);
    auto d = DistributedPointFunction::CreateIncremental(ps);
    if (v.invalid || v.unimplemented) REQUIRE(!d.ok());
    else if (!v.maybe_invalid) REQUIRE(d.ok()) << d.status();
    s.NonTrivial(true);
    return;
  }
  if (which == 1) {
    DpfKey k;
    k.ParsePartialFromString(MutateBytes(s, c.key[s.Bool()].SerializeAsString()));
    NOTE(s, Show(c) << " key {" << k.ShortDebugString().substr(0, 600) << "}");
    auto ctx = c.dpf->CreateEvaluationContext(k);
    WantAny(ctx.status());
    for (int l = 0; l <= last; l++) {
      auto r = c.types[l]->at(*c.dpf, k, l, {A(DrawPoint(s, c, l)), A(0), A(c.MaxPoint(l))});
      WantAny(r.status());
      REQUIRE(!r.ok() || r->size() == 3);
      if (!ctx.ok()) REQUIRE(!r.ok()) << "refused by CreateEvaluationContext (" << ctx.status() << ") but evaluated";
    }
    std::vector<Results> out;
    WantAny(c.types[0]->apply(*c.dpf, {&k, &c.key[0]}, {A(0), A(c.MaxPoint(last))}, 0, -1, &out, nullptr));
    if (ctx.ok() && c.logs[0] <= 12) WantAny(c.types[0]->until(*c.dpf, 0, {}, *ctx).status());
    s.NonTrivial(k.SerializeAsString() != c.key[0].SerializeAsString());
    return;
  }
  auto ctx = c.dpf->CreateEvaluationContext(c.key[0]);
  REQUIRE(ctx.ok());
  int l = (int)s.Draw(last);
  std::vector<absl::uint128> pts;
  for (int i = (int)s.Small(1, 4); i > 0; i--) pts.push_back(A(DrawPoint(s, c, l)));
  REQUIRE(c.types[l]->at_ctx(*c.dpf, l, pts, *ctx).ok());
  EvaluationContext m;
  m.ParsePartialFromString(MutateBytes(s, ctx->SerializeAsString()));
  NOTE(s, Show(c) << " state {" << m.ShortDebugString().substr(0, 900) << "}");
  int next = (int)s.Int(0, last);
  EvaluationContext a = m;
  WantAny(c.types[next]->at_ctx(*c.dpf, next, {A(U(pts[0]) & c.MaxPoint(next)), A(DrawPoint(s, c, next))}, a).status());
  int p = m.previous_hierarchy_level();
  bool small = p < 0 ? c.logs[next] <= 12 : p >= last || next <= p || c.logs[next] - c.logs[p] <= 12;
  if (small) {
    a = m;
    std::vector<absl::uint128> pre;
    if (s.Bool()) pre = pts;
    WantAny(c.types[next]->until(*c.dpf, next, pre, a).status());
  }
  s.NonTrivial(true);
}
