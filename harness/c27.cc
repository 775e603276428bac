// C27: concurrent use of shared objects gives the sequential results.
// LIBS: pir gates
// SRCS: dpf_types.cc dpf_types_0.cc dpf_types_1.cc dpf_types_2.cc dpf_types_3.cc dcf_types.cc dcf_types_0.cc dcf_types_1.cc dcf_types_2.cc dcf_types_3.cc
#include <atomic>
#include <functional>
#include <thread>
#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dcf/fss_gates/prng/basic_rng.h"
#include "dcf_types.h"
#include "dpf/aes_128_fixed_key_hash.h"
#include "keyword.h"
#include "pir/hashing/cuckoo_hash_table.h"
#include "pir/hashing/farm_hash_family.h"
#include "pir/hashing/hash_family_config.h"
#include "pir/hashing/multiple_choice_hash_table.h"
#include "pir/hashing/sha256_hash_family.h"
#include "pir/hashing/simple_hash_table.h"
#include "sel.h"
using namespace vt;
using pbt::Src;
using D::Aes128FixedKeyHash;

const char* const pbt::kRule =
    "A case makes one object (point function with any output types, fixed-key hash, hash functions, comparison function, "
    "interval gate, database, server in any role, client) and 2..5 lists of operations with drawn arguments. A thread per "
    "list runs it on the shared object, all released together; the lists are then run one after another on a second, equal "
    "object, and every result must be the same. A sub-check runs threads on objects of their own. A build with the thread "
    "sanitizer runs the same cases and reports data races whatever the timing. Non-trivial: two threads with at least two "
    "operations each.";
const std::vector<std::string> pbt::kAssumptions = {
    "schedules are those the machine produces; the thread sanitizer's happens-before analysis covers others",
    "system randomness is a seeded stream per thread; abseil, protobuf and BoringSSL are not instrumented for the thread sanitizer"};

static const bool kKeep = pbt::KeepUnreproduced() = true;

// An operation: runs, and returns everything it observed.
typedef std::function<std::string()> Op;
typedef std::vector<std::vector<Op>> Lists;

static std::string RunOne(const Op& op) {
  try {
    return op();
  } catch (const std::exception& e) {
    return std::string("exception: ") + e.what();
  } catch (...) {
    return "exception";
  }
}
// `shared` and `fresh` hold the same operations, bound to the shared object and to its equal.
static void Compare(Src& s, const Lists& shared, const Lists& fresh, uint64_t seed) {
  size_t n = shared.size();
  int repeat = (int)s.Int(1, 3);
  std::vector<std::vector<std::string>> got(n);
  std::atomic<int> ready{0};
  std::vector<std::thread> threads;
  for (size_t t = 0; t < n; t++)
    threads.emplace_back([&, t] {
      pbt::SeedThreadRand(pbt::Mix(seed + t));
      std::vector<std::string> r;
      ready.fetch_add(1);
      while (ready.load() < (int)n) std::this_thread::yield();
      for (int k = 0; k < repeat; k++)
        for (auto& op : shared[t]) r.push_back(RunOne(op));
      got[t] = std::move(r);
    });
  for (auto& t : threads) t.join();
  bool busy = n >= 2;
  for (size_t t = 0; t < n; t++) {
    pbt::SeedThreadRand(pbt::Mix(seed + t));
    busy &= fresh[t].size() >= 2;
    for (int k = 0; k < repeat; k++)
      for (size_t i = 0; i < fresh[t].size(); i++) {
        std::string want = RunOne(fresh[t][i]);
        if (got[t][k * fresh[t].size() + i] == want) continue;
        pbt::EndThreadRand();
        REQUIRE(false) << "thread " << t << " round " << k << " operation " << i << " got " << got[t][k * fresh[t].size() + i].substr(0, 300) << " alone " << want.substr(0, 300);
      }
  }
  pbt::EndThreadRand();
  s.NonTrivial(busy);
  s.Label("threads " + std::to_string(n));
}
static int DrawThreads(Src& s) { return (int)s.Int(2, 5); }

static std::string Text(const absl::StatusOr<Results>& r) {
  if (!r.ok()) return r.status().ToString();
  std::string t;
  for (auto& x : *r) t += Show(x);
  return t;
}
template <typename M> static std::string Wire(const M& m) { std::string r; m.SerializeToString(&r); return r; }

CASE(point_functions, 700, 17500) {
  GenOptions o;
  o.max_levels = 3;
  o.max_log = s.Chance(1, 4) ? 128 : 10;
  Config c = DrawConfig(s, o);
  auto second = DistributedPointFunction::CreateIncremental(c.params);
  REQUIRE(second.ok());
  for (auto* t : c.types) REQUIRE(t->reg(**second).ok());
  DistributedPointFunction* objects[2] = {c.dpf.get(), second->get()};
  Lists lists[2];
  int n = DrawThreads(s);
  for (int t = 0; t < n; t++) {
    for (auto& l : lists) l.emplace_back();
    for (int k = (int)s.Int(1, 4) + s.Chance(9, 10); k > 0; k--) {
      int party = (int)s.Draw(1), level = (int)s.Draw(c.levels() - 1), kind = (int)s.Draw(3);
      std::vector<absl::uint128> xs;
      for (int i = (int)s.Int(1, 80); i > 0; i--) xs.push_back(A(DrawPoint(s, c, level)));
      u128 alpha = s.Edge128(c.MaxPoint(c.levels() - 1));
      for (int w = 0; w < 2; w++) {
        DistributedPointFunction* d = objects[w];
        Op op;
        if (kind == 0 || (kind == 1 && c.logs[0] > 10)) {
          op = [=, &c] { return Text(c.types[level]->at(*d, c.key[party], level, xs)); };
        } else if (kind == 1) {
          op = [=, &c] {
            auto ctx = d->CreateEvaluationContext(c.key[party]);
            if (!ctx.ok()) return ctx.status().ToString();
            std::string r = Text(c.types[0]->next(*d, {}, *ctx));
            if (c.levels() > 1 && c.logs[1] - c.logs[0] <= 6) r += Text(c.types[1]->next(*d, {absl::uint128(0), A(c.AlphaPrefix(0))}, *ctx));
            return r + Wire(*ctx);
          };
        } else if (kind == 2) {
          op = [=, &c] {
            std::vector<const DpfKey*> keys(xs.size(), &c.key[party]);
            std::vector<Results> out;
            std::vector<absl::uint128> last = xs;
            for (auto& x : last) x = A(U(x) & c.MaxPoint(c.levels() - 1));
            bool same = true;
            for (auto* ty : c.types) same &= ty == c.types[0];
            if (!same) return Text(c.types[level]->at(*d, c.key[party], level, xs));
            auto st = c.types[0]->apply(*d, keys, last, 0, -1, &out, nullptr);
            std::string r = st.ToString();
            for (auto& x : out) for (auto& y : x) r += Show(y);
            return r;
          };
        } else {
          op = [=, &c] {
            std::vector<Value> beta;
            for (int i = 0; i < c.levels(); i++) beta.push_back(ValueProto(c.types[i]->shape, c.beta[i]));
            auto k = d->GenerateKeysIncremental(A(alpha), beta);
            return k.ok() ? Wire(k->first) + Wire(k->second) : k.status().ToString();
          };
        }
        lists[w][t].push_back(op);
      }
    }
  }
  Compare(s, lists[0], lists[1], s.Draw(~0ull));
}

CASE(fixed_key_hashes, 1500, 37500) {
  u128 key = s.Edge128(~(u128)0);
  auto a = Aes128FixedKeyHash::Create(A(key)), b = Aes128FixedKeyHash::Create(A(key));
  REQUIRE(a.ok() && b.ok());
  const Aes128FixedKeyHash* objects[2] = {&*a, &*b};
  Lists lists[2];
  int n = DrawThreads(s);
  NOTE(s, n << " threads");
  for (int t = 0; t < n; t++) {
    for (auto& l : lists) l.emplace_back();
    for (int k = (int)s.Int(1, 5) + s.Chance(9, 10); k > 0; k--) {
      std::string in = s.Blob(16 * s.Draw(300));
      for (int w = 0; w < 2; w++) {
        auto* h = objects[w];
        lists[w][t].push_back([=] {
          std::vector<absl::uint128> x(in.size() / 16), y(in.size() / 16);
          memcpy((void*)x.data(), in.data(), in.size());
          auto st = h->Evaluate(x, absl::MakeSpan(y));
          return st.ToString() + std::string((const char*)y.data(), in.size());
        });
      }
    }
  }
  Compare(s, lists[0], lists[1], s.Draw(~0ull));
}

static D::HashFamily Family(int kind, const std::string& seed) {
  if (kind == 0) return D::WrapWithSeed(D::SHA256HashFamily(), seed);
  if (kind == 1) return D::WrapWithSeed(D::FarmHashFamily(), seed);
  D::HashFamilyConfig c;
  c.set_hash_family(D::HashFamilyConfig::HASH_FAMILY_SHA256);
  c.set_seed(seed.empty() ? "s" : seed);
  auto f = D::CreateHashFamilyFromConfig(c);
  REQUIRE(f.ok());
  return std::move(*f);
}

CASE(hash_functions, 1500, 37500) {
  int kind = (int)s.Draw(2), count = (int)s.Int(1, 3);
  std::string seed = s.Str(16);
  D::HashFamily fam[2] = {Family(kind, seed), Family(kind, seed)};
  std::vector<D::HashFunction> fns[2];
  for (int w = 0; w < 2; w++) {
    auto f = D::CreateHashFunctions(Family(kind, seed), count);
    REQUIRE(f.ok());
    fns[w] = std::move(*f);
  }
  Lists lists[2];
  int n = DrawThreads(s);
  NOTE(s, n << " threads, family " << kind);
  for (int t = 0; t < n; t++) {
    for (auto& l : lists) l.emplace_back();
    for (int k = (int)s.Int(1, 8) + s.Chance(9, 10); k > 0; k--) {
      std::string in = s.Blob(s.Draw(200));
      int i = (int)s.Draw(count - 1), bound = 1 + (int)s.Edge(0x7ffffffe);
      bool make = s.Chance(1, 4);
      for (int w = 0; w < 2; w++) {
        auto* f = &fns[w];
        auto* m = &fam[w];
        lists[w][t].push_back([=] {
          if (!make) return std::to_string((*f)[i](in, bound));
          auto g = (*m)(in);
          return std::to_string(g("x", bound)) + " " + std::to_string(g(in, bound));
        });
      }
    }
  }
  Compare(s, lists[0], lists[1], s.Draw(~0ull));
}

CASE(comparison_functions, 500, 12500) {
  Dcf d;
  DrawDcf(s, s.Chance(1, 4) ? 128 : 12, &d);
  auto second = DistributedComparisonFunction::Create(d.params);
  REQUIRE(second.ok());
  NOTE(s, "2^" << d.log << " " << d.type->name);
  REQUIRE(d.ops->gen(**second, 0, Zero(*d.type)).ok());
  pbt::SeedRand(s.Draw(~0ull));
  std::vector<DcfKey> keys;
  std::vector<u128> alphas;
  for (int i = 0; i < 3; i++) {
    u128 a = s.Edge128(d.Max());
    auto k = d.dcf->GenerateKeys(A(a), ValueProto(d.type->shape, DrawValue(s, *d.type)));
    REQUIRE(k.ok()) << k.status();
    keys.push_back(k->first);
    keys.push_back(k->second);
    alphas.push_back(a);
  }
  DistributedComparisonFunction* objects[2] = {d.dcf.get(), second->get()};
  Lists lists[2];
  int n = DrawThreads(s);
  for (int t = 0; t < n; t++) {
    for (auto& l : lists) l.emplace_back();
    for (int k = (int)s.Int(1, 4) + s.Chance(9, 10); k > 0; k--) {
      std::vector<const DcfKey*> ks;
      std::vector<absl::uint128> xs;
      for (int i = (int)s.Int(1, 12); i > 0; i--) { int j = (int)s.Draw(5); ks.push_back(&keys[j]); xs.push_back(A(NearPoint(s, alphas[j / 2], d.Max()))); }
      bool gen = s.Chance(1, 4);
      Value beta = ValueProto(d.type->shape, DrawValue(s, *d.type));
      for (int w = 0; w < 2; w++) {
        auto* f = objects[w];
        auto* ops = d.ops;
        lists[w][t].push_back([=] {
          if (gen) {
            auto k = f->GenerateKeys(xs[0], beta);
            return k.ok() ? Wire(k->first) + Wire(k->second) : k.status().ToString();
          }
          if (xs.size() == 1) { auto r = ops->eval(*f, *ks[0], U(xs[0])); return r.ok() ? Show(*r) : r.status().ToString(); }
          return Text(ops->batch_ptr(*f, ks, xs));
        });
      }
    }
  }
  Compare(s, lists[0], lists[1], s.Draw(~0ull));
}

CASE(interval_gates, 400, 10000) {
  using Gate = D::fss_gates::MultipleIntervalContainmentGate;
  int log = (int)(s.Bool() ? s.Int(1, 8) : s.Int(1, 127)), m = (int)s.Int(1, 4);
  u128 max = ((u128)1 << log) - 1;
  D::fss_gates::MicParameters p;
  p.set_log_group_size(log);
  for (int i = 0; i < m; i++) {
    u128 a = s.Edge128(max), b = s.Edge128(max);
    if (a > b) std::swap(a, b);
    SetInteger(p.add_intervals()->mutable_lower_bound(), a);
    SetInteger(p.mutable_intervals(i)->mutable_upper_bound(), b);
    auto fix = [](Value::Integer* v) { if (v->value_case() == Value::Integer::kValueUint64) { uint64_t x = v->value_uint64(); v->mutable_value_uint128()->set_low(x); } };
    fix(p.mutable_intervals(i)->mutable_lower_bound());
    fix(p.mutable_intervals(i)->mutable_upper_bound());
  }
  NOTE(s, p.ShortDebugString());
  auto a = Gate::Create(p), b = Gate::Create(p);
  REQUIRE(a.ok() && b.ok()) << a.status();
  Gate* objects[2] = {a->get(), b->get()};
  pbt::SeedRand(s.Draw(~0ull));
  std::vector<absl::uint128> r_out;
  for (int i = 0; i < m; i++) r_out.push_back(A(s.Edge128(max)));
  auto keys = (*a)->Gen(A(s.Edge128(max)), r_out);
  REQUIRE(keys.ok()) << keys.status();
  Lists lists[2];
  int n = DrawThreads(s);
  for (int t = 0; t < n; t++) {
    for (auto& l : lists) l.emplace_back();
    for (int k = (int)s.Int(1, 3) + s.Chance(9, 10); k > 0; k--) {
      std::vector<absl::uint128> xs;
      for (int i = (int)s.Int(1, 4); i > 0; i--) xs.push_back(A(s.Edge128(max)));
      const auto* key = s.Bool() ? &keys->first : &keys->second;
      for (int w = 0; w < 2; w++) {
        Gate* g = objects[w];
        lists[w][t].push_back([=] {
          auto r = xs.size() == 1 ? g->Eval(*key, xs[0]) : g->BatchEval(std::vector<const D::fss_gates::MicKey*>(xs.size(), key), xs);
          if (!r.ok()) return r.status().ToString();
          std::string t;
          for (auto x : *r) t += pbt::Str128(U(x)) + " ";
          return t;
        });
      }
    }
  }
  Compare(s, lists[0], lists[1], s.Draw(~0ull));
}

CASE(databases, 1000, 25000) {
  using namespace pirx;
  int kind = (int)s.Draw(2), n = (int)s.Small(1, 200);
  std::vector<std::string> values;
  std::vector<Rec> recs;
  for (int i = 0; i < n; i++) {
    values.push_back(Src::Expand(pbt::Mix(i + 3), (size_t)(i % 70)));
    recs.push_back({"key" + std::to_string(i), values.back()});
  }
  NOTE(s, "kind " << kind << ", " << n << " records");
  D::CuckooHashingParams cp = keyword::DrawParams<CuckooKind>(s, 2 * n + 2, 3);
  D::SimpleHashingParams sp = keyword::DrawParams<SimpleKind>(s, n, 3);
  std::vector<std::function<std::string(const sel::Selection&)>> query(2);
  size_t bits = 0;
  for (int w = 0; w < 2; w++) {
    auto use = [&](auto db, auto show) {
      bits = db->num_selection_bits();
      std::shared_ptr<typename decltype(db)::element_type> d = std::move(db);
      query[w] = [d, show](const sel::Selection& b) {
        auto r = d->InnerProductWith({b, b});
        if (!r.ok()) return r.status().ToString();
        std::string t = std::to_string(d->size());
        for (auto& x : *r) t += show(x) + ";";
        return t;
      };
    };
    if (kind == 0) use(DenseDb(values), [](const std::string& x) { return x; });
    else if (kind == 1) {
      auto db = KeywordDb<CuckooKind>(cp, recs);
      if (!db.ok()) throw pbt::Discard();
      use(std::move(*db), [](const Rec& x) { return x.first + "=" + x.second; });
    } else use(Must(KeywordDb<SimpleKind>(sp, recs), "Build"), [](const std::string& x) { return x; });
  }
  Lists lists[2];
  int nt = DrawThreads(s);
  for (int t = 0; t < nt; t++) {
    for (auto& l : lists) l.emplace_back();
    for (int k = (int)s.Int(1, 4) + s.Chance(9, 10); k > 0; k--) {
      sel::Selection b = sel::Random(s, bits);
      for (int w = 0; w < 2; w++) lists[w][t].push_back([&query, w, b] { return query[w](b); });
    }
  }
  Compare(s, lists[0], lists[1], s.Draw(~0ull));
}

// ---- Retrieval: one client and one server of each role, shared by all ----
template <typename Client, typename Server, typename Query>
static void Retrieval(Src& s, std::unique_ptr<Client> (&clients)[2], pirx::Servers<Server> (&servers)[2], std::function<Query(Src&)> draw) {
  Lists lists[2];
  int n = DrawThreads(s);
  for (int t = 0; t < n; t++) {
    for (auto& l : lists) l.emplace_back();
    for (int k = (int)s.Int(1, 3) + s.Chance(9, 10); k > 0; k--) {
      Query q = draw(s);
      int kind = (int)s.Draw(3);
      for (int w = 0; w < 2; w++) {
        auto* c = clients[w].get();
        auto* v = &servers[w];
        auto show = [](auto r, auto* c, const D::PirRequestClientState& st) {
          if (!r.ok()) return r.status().ToString();
          std::string t = Wire(*r);
          auto a = c->HandleResponse(*r, st);
          if (!a.ok()) return t + a.status().ToString();
          for (auto& x : *a) {
            if constexpr (std::is_same<std::decay_t<decltype(x)>, std::string>::value) t += x;
            else t += x.has_value() ? "=" + *x : "none";
          }
          return t;
        };
        Op op;
        if (kind <= 1) op = [=] {
          auto r = c->CreateRequest(q);
          if (!r.ok()) return r.status().ToString();
          return Wire(r->first) + Wire(r->second) + show(v->leader->HandleRequest(r->first), c, r->second);
        };
        else op = [=] {
          auto r = c->CreatePlainRequests(q);
          if (!r.ok()) return r.status().ToString();
          auto& [lead, help, st] = *r;
          std::string t = Wire(lead) + Wire(help) + Wire(st);
          auto a = v->plain[0]->HandleRequest(pirx::Plain(kind == 2 ? lead : help.plain_request()));
          t += a.ok() ? Wire(*a) : a.status().ToString();
          t += Wire(v->plain[0]->GetPublicParams());
          return t;
        };
        lists[w][t].push_back(op);
      }
    }
  }
  Compare(s, lists[0], lists[1], s.Draw(~0ull));
}
template <typename K> static void KeywordRetrieval(Src& s) {
  using namespace pirx;
  int n = (int)s.Small(1, 20);
  std::vector<Rec> recs;
  for (int i = 0; i < n; i++) recs.push_back({"key" + std::to_string(i), "value" + std::to_string(i * 7919)});
  auto p = keyword::DrawParams<K>(s, 2 * n, 3);
  NOTE(s, (std::is_same<K, CuckooKind>::value ? "cuckoo, " : "simple, ") << n << " records");
  Servers<typename K::Server> v[2];
  std::unique_ptr<typename K::Client> c[2];
  for (int w = 0; w < 2; w++) {
    if (!MakeKeyword<K>(p, recs, &v[w])) throw pbt::Discard();
    c[w] = Must(K::Client::Create(K::Public(p), Encrypt), "client");
  }
  Retrieval<typename K::Client, typename K::Server, std::vector<std::string>>(s, c, v, [n](Src& s) {
    std::vector<std::string> q;
    for (int k = (int)s.Small(1, 3); k > 0; k--) q.push_back("key" + std::to_string(s.Draw(n)));
    return q;
  });
}
CASE(retrieval, 700, 17500) {
  using namespace pirx;
  int kind = (int)s.Draw(2);
  if (kind == 1) return KeywordRetrieval<CuckooKind>(s);
  if (kind == 2) return KeywordRetrieval<SimpleKind>(s);
  int n = (int)s.Small(1, 300);
  std::vector<std::string> values;
  for (int i = 0; i < n; i++) values.push_back(Src::Expand(pbt::Mix(i + 77), (size_t)(1 + i % 23)));
  NOTE(s, "dense, " << n << " values");
  Servers<D::DenseDpfPirServer> v[2];
  std::unique_ptr<D::DenseDpfPirClient> c[2];
  for (int w = 0; w < 2; w++) {
    MakeDense(values, &v[w]);
    c[w] = Must(D::DenseDpfPirClient::Create(DenseConfig(n), Encrypt), "client");
  }
  Retrieval<D::DenseDpfPirClient, D::DenseDpfPirServer, std::vector<int>>(s, c, v, [n](Src& s) {
    std::vector<int> q;
    for (int k = (int)s.Small(1, 4); k > 0; k--) q.push_back((int)s.Draw(n - 1));
    return q;
  });
}

// Each thread makes and uses objects of its own: nothing is shared behind the scenes.
CASE(own_objects, 1200, 30000) {
  Lists list;
  int n = DrawThreads(s);
  for (int t = 0; t < n; t++) {
    list.emplace_back();
    for (int k = (int)s.Int(1, 3) + s.Chance(9, 10); k > 0; k--) {
      int kind = (int)s.Draw(6);
      uint64_t seed = s.Draw(~0ull);
      const TypeOps* ty = &s.Pick(Types());
      int log = (int)s.Int(0, std::min(12, MaxLogDomain(*ty)));
      Leaves beta = DrawValue(s, *ty);
      std::string text = s.Str(12);
      NOTE(s, "thread " << t << " kind " << kind << " " << ty->name << " 2^" << log);
      list[t].push_back([=]() -> std::string {
        pbt::Rng r{seed};
        if (kind == 0) {  // typed key generation touches the type
          auto d = DistributedPointFunction::Create(MakeParams(log, *ty, 0));
          if (!d.ok()) return d.status().ToString();
          auto k = ty->gen(**d, A(r.Next() & ((1u << log) - 1)), beta);
          if (!k.ok()) return k.status().ToString();
          return Wire(k->first) + Text(ty->at(**d, k->second, 0, {0, A((1u << log) - 1)}));
        }
        if (kind == 1) {
          auto f = D::CreateHashFunctions(Family((int)(seed % 3), text), 3);
          if (!f.ok()) return f.status().ToString();
          auto h = D::CuckooHashTable::Create(std::move(*f), 40, 60, 30);
          if (!h.ok()) return h.status().ToString();
          std::string out;
          for (int i = 0; i < 30; i++) out += (*h)->Insert(std::to_string(r.Next() % 100)).ToString();
          for (auto& e : (*h)->GetTable()) out += e.has_value() ? *e + "," : "-";
          for (auto& e : (*h)->GetStash()) out += e;
          return out;
        }
        if (kind == 2) {
          auto f = D::CreateHashFunctions(Family((int)(seed % 3), text), 2);
          auto h = D::SimpleHashTable::Create(std::move(*f), 10);
          if (!h.ok()) return h.status().ToString();
          std::string out;
          for (int i = 0; i < 30; i++) out += (*h)->Insert(std::to_string(r.Next() % 100)).ToString();
          for (auto& e : (*h)->GetTable()) { for (auto& x : e) out += x + ","; out += ";"; }
          return out;
        }
        if (kind == 3) {
          std::string key = Src::Expand(seed | 1, 16);
          auto p = D::Aes128CtrSeededPrng::Create(key);
          if (!p.ok()) return p.status().ToString();
          std::string out;
          for (int i = 0; i < 5; i++) out += (*p)->GetRandomBytes((int)(r.Next() % 300));
          auto g = D::Aes128CtrSeededPrng::GenerateSeed();
          return out + (g.ok() ? *g : g.status().ToString());
        }
        if (kind == 4) {
          auto g = D::BasicRng::Create(text);
          if (!g.ok()) return g.status().ToString();
          std::string out;
          for (int i = 0; i < 6; i++) { out += std::to_string(*(*g)->Rand8()) + " " + std::to_string(*(*g)->Rand64()) + " " + pbt::Str128(U(*(*g)->Rand128())) + ","; }
          return out;
        }
        if (kind == 5) {  // value conversions and arithmetic
          Value v = ty->to_value(beta);
          auto b = ty->from_value(v);
          return Wire(v) + (b.ok() ? Show(*b) : b.status().ToString()) + Wire(ty->to_type()) + Show(ty->lib_add(beta, beta)) + Show(ty->lib_neg(beta));
        }
        std::vector<std::string> values;
        for (int i = 0; i < 20; i++) values.push_back(Src::Expand(r.Next() | 1, (size_t)(r.Next() % 40)));
        auto db = pirx::DenseDb(values);
        auto a = db->InnerProductWith({sel::One(20, seed % 20)});
        return a.ok() ? (*a)[0] : a.status().ToString();
      });
    }
  }
  Compare(s, list, list, s.Draw(~0ull));
}
