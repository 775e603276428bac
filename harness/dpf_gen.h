// Generators of incremental DPFs and their keys.
#ifndef VERIF_DPF_GEN_H_
#define VERIF_DPF_GEN_H_
#include "dpf_types.h"

namespace vt {

struct Config {
  std::vector<const TypeOps*> types;  // per hierarchy level
  std::vector<int> logs;              // log domain size per level
  std::vector<DpfParameters> params;
  std::unique_ptr<DistributedPointFunction> dpf;
  u128 alpha = 0;
  std::vector<Leaves> beta;
  DpfKey key[2];
  int levels() const { return (int)types.size(); }
  u128 MaxPoint(int level) const { return logs[level] == 128 ? ~(u128)0 : (((u128)1 << logs[level]) - 1); }
  u128 AlphaPrefix(int level) const {
    int sh = logs.back() - logs[level];
    return sh >= 128 ? 0 : alpha >> sh;
  }
  Leaves Expected(int level, u128 x) const {
    return x == AlphaPrefix(level) ? beta[level] : Zero(*types[level]);
  }
};

struct GenOptions {
  int max_levels = 4;
  int min_log = 0;        // smallest log domain size of the first level
  int max_log = 128;      // largest log domain size of the last level
  int max_gap = 128;      // largest difference between successive levels
  bool same_type = false; // one type for all levels
};

inline DpfParameters MakeParams(int log, const TypeOps& t, double sec) {
  DpfParameters p;
  p.set_log_domain_size(log);
  *p.mutable_value_type() = t.type;
  if (sec != 0) p.set_security_parameter(sec);
  return p;
}

// Security parameter for the type at this domain size: often the default (0),
// always one that the type can meet.
inline double DrawSecurity(pbt::Src& s, const TypeOps& t, int log) {
  int cap = MaxLogDomain(t);
  bool explicit_sec = s.Chance(1, 4);
  if (log <= cap && !explicit_sec) return 0;
  bool has_mod = cap < 128;
  int hi = has_mod ? std::min(128, cap + 40) : 128;
  return (double)s.Int(1, 4 * hi) / 4;
}

inline void DrawParams(pbt::Src& s, const GenOptions& o, Config* c) {
  int n = (int)s.Small(1, o.max_levels);
  int log = (int)(s.Bool() ? s.Int(0, std::min({o.max_gap, o.max_log, 12})) : s.Small(0, std::min(o.max_gap, o.max_log)));
  log = std::max(log, o.min_log);
  const TypeOps* t = nullptr;
  for (int i = 0; i < n; i++) {
    if (i > 0) {
      int room = std::min(o.max_gap, o.max_log - log);
      if (room < 1) break;
      log += (int)s.Small(1, room);
    }
    if (!t || !o.same_type) t = &s.Pick(Types());
    c->types.push_back(t);
    c->logs.push_back(log);
    c->params.push_back(MakeParams(log, *t, DrawSecurity(s, *t, log)));
  }
}

inline void MakeDpf(Config* c) {
  auto d = DistributedPointFunction::CreateIncremental(c->params);
  REQUIRE(d.ok()) << "valid parameters rejected: " << d.status();
  c->dpf = std::move(*d);
  for (auto* t : c->types) REQUIRE(t->reg(*c->dpf).ok());
}

inline void DrawKeys(pbt::Src& s, Config* c) {
  c->alpha = s.Edge128(c->MaxPoint(c->levels() - 1));
  std::vector<Value> beta;
  for (auto* t : c->types) {
    c->beta.push_back(DrawValue(s, *t));
    beta.push_back(ValueProto(t->shape, c->beta.back()));
  }
  pbt::SeedRand(s.Draw(~0ull));
  auto k = c->dpf->GenerateKeysIncremental(A(c->alpha), beta);
  REQUIRE(k.ok()) << "key generation failed: " << k.status();
  c->key[0] = k->first;
  c->key[1] = k->second;
}

inline std::string Show(const Config& c) {
  std::string r;
  for (int i = 0; i < c.levels(); i++)
    r += " L" + std::to_string(i) + ":2^" + std::to_string(c.logs[i]) + " " + c.types[i]->name +
         (i < (int)c.beta.size() ? " beta=" + Show(c.beta[i]) : "") +
         (c.params[i].security_parameter() ? " sec=" + std::to_string(c.params[i].security_parameter()) : "");
  return "alpha=" + pbt::Str128(c.alpha) + r;
}

inline Config DrawConfig(pbt::Src& s, const GenOptions& o) {
  Config c;
  std::string target = PickTarget(s);
  DrawParams(s, o, &c);
  NOTE(s, "simd=" << target << Show(c));
  MakeDpf(&c);
  DrawKeys(s, &c);
  NOTE(s, Show(c));
  s.Label("simd " + target);
  s.Label("levels " + std::to_string(c.levels()));
  for (auto* t : c.types) s.Label("type " + t->name.substr(0, 48));
  return c;
}

// A point near or at the special one, at the given level.
inline u128 DrawPoint(pbt::Src& s, const Config& c, int level) {
  u128 a = c.AlphaPrefix(level), m = c.MaxPoint(level), x;
  switch (s.Draw(4)) {
    case 0: x = a; break;
    case 1: x = a ^ ((u128)1 << s.Int(0, 127)); break;   // differs in one bit
    case 2: x = a + 1; break;
    case 3: x = a - 1; break;
    default: x = s.Edge128(m);
  }
  return x & m;
}
}  // namespace vt
#endif
