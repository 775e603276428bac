// C21: keyword databases hold every record where its hash says, for any history.
// LIBS: pir
#include <algorithm>
#include <memory>
#include <set>
#include "google/protobuf/io/coded_stream.h"
#include "pbt.h"
#include "pir/canonical_status_payload_uris.h"
#include "pir/cuckoo_hashed_dpf_pir_database.h"
#include "pir/dense_dpf_pir_database.h"
#include "pir/private_information_retrieval.pb.h"
#include "pir/simple_hashed_dpf_pir_database.h"
#include "ref_sha256.h"
#include "sel.h"

namespace D = distributed_point_functions;
using pbt::Src;
typedef std::pair<std::string, std::string> Rec;
typedef D::DenseDpfPirDatabase Dense;

const char* const pbt::kRule =
    "A case is a history of up to 40 operations over up to 4 builders (insert, set parameters, supply a dense builder that "
    "is fresh, used, recording or failing, clone, clear, build, build again) of cuckoo- or simple-hashed databases with up "
    "to 60 buckets and duplicate, empty, binary or NUL-ended keys and values. Each database built is read bucket by bucket "
    "and compared with the records, their SHA-256 positions (computed independently), and a fresh builder's database. "
    "Non-trivial: a database with two or more records, built by a builder that was cloned, cleared or reconfigured.";
const std::vector<std::string> pbt::kAssumptions = {};

// A dense builder that records what it is given, and may fail.
struct Log {
  std::vector<std::string> last;  // contents of the last database built
  bool fail = false;
};
class Recorder : public Dense::Interface::Builder {
 public:
  explicit Recorder(std::shared_ptr<Log> log) : log_(std::move(log)), b_(std::make_unique<Dense::Builder>()) {}
  Recorder& Insert(std::string v) override { now_.push_back(v); b_->Insert(std::move(v)); return *this; }
  Recorder& Clear() override { now_.clear(); b_->Clear(); return *this; }
  std::unique_ptr<Dense::Interface::Builder> Clone() const override {
    auto r = std::make_unique<Recorder>(log_);
    r->b_ = b_->Clone();
    r->now_ = now_;
    return r;
  }
  absl::StatusOr<std::unique_ptr<Dense::Interface>> Build() override {
    if (log_->fail) { log_->fail = false; return absl::DataLossError("injected"); }
    log_->last = now_;
    return b_->Build();
  }
 private:
  std::shared_ptr<Log> log_;
  std::unique_ptr<Dense::Interface::Builder> b_;
  std::vector<std::string> now_;
};

struct Params {
  bool family = false;
  int64_t buckets = 0;
  int functions = 0;
  std::string seed;
  std::string Show() const { return std::to_string(buckets) + " buckets, " + std::to_string(functions) + " functions, seed " + pbt::Hex(seed) + (family ? "" : " (no family)"); }
};
static D::HashFamilyConfig Config(const Params& p) {
  D::HashFamilyConfig c;
  if (p.family) c.set_hash_family(D::HashFamilyConfig::HASH_FAMILY_SHA256);
  c.set_seed(p.seed);
  return c;
}
static int Pos(const Params& p, int i, const std::string& key) {
  return ref::DigestMod(ref::Sha256(p.seed + std::to_string(i) + key), (int)p.buckets);
}
static Params DrawParams(Src& s, int max_buckets, bool cuckoo) {
  Params p;
  p.family = !s.Chance(1, 25);
  p.buckets = s.Small(1, max_buckets);
  if (s.Chance(1, 20)) p.buckets = -(int64_t)s.Draw(3);
  // Bucket counts that an int cannot hold (and whose low half is small).
  if (s.Chance(1, 40)) p.buckets = (int64_t)((s.Int(1, 8) << 32) + s.Int(-2, 6));
  if (p.buckets > 1000 && p.buckets < (1ll << 32)) p.buckets = (1ll << 32) + 1;
  p.functions = (int)s.Int(2, 4);
  if (s.Chance(1, 30)) p.functions = (int)s.Int(-2, 1);
  p.seed = s.Chance(1, 30) ? "" : s.Bool() ? s.Blob(16) : "s" + s.Str(3);
  (void)cuckoo;
  return p;
}

static std::string DrawKey(Src& s, const std::vector<Rec>& have, bool nul_ok) {
  std::string k;
  if (!have.empty() && s.Chance(1, 10)) k = s.Pick(have).first;
  else if (!have.empty() && s.Chance(1, 8)) { k = s.Pick(have).first; if (s.Bool()) k += s.Str(2); else if (!k.empty()) k.pop_back(); }
  else if (s.Chance(1, 4)) k = s.Str(5);
  else k = "key" + std::to_string(s.Draw(9999));
  while (!nul_ok && !k.empty() && k.back() == 0) k.pop_back();
  if (k.empty() && !s.Chance(1, 30)) k = "k";
  return k;
}
static std::string DrawValue(Src& s) {
  switch (s.Draw(3)) {
    case 0: return s.Str(6);
    case 1: return s.Blob(s.Small(0, 40));
    case 2: return "";
    default: return "value" + std::to_string(s.Draw(999));
  }
}

// Maximum matching of distinct keys to buckets.
static size_t Matching(const Params& p, const std::set<std::string>& keys) {
  std::vector<std::vector<int>> pos;
  for (auto& k : keys) { pos.emplace_back(); for (int i = 0; i < p.functions; i++) pos.back().push_back(Pos(p, i, k)); }
  std::vector<int> owner((size_t)p.buckets, -1);
  size_t matched = 0;
  for (size_t k = 0; k < pos.size(); k++) {
    std::vector<bool> seen((size_t)p.buckets, false);
    std::function<bool(int)> augment = [&](int x) {
      for (int b : pos[x]) {
        if (seen[b]) continue;
        seen[b] = true;
        if (owner[b] < 0 || augment(owner[b])) { owner[b] = x; return true; }
      }
      return false;
    };
    if (augment((int)k)) matched++;
  }
  return matched;
}

static bool AllEmpty(const std::vector<std::string>& v) {
  for (auto& x : v) if (!x.empty()) return false;
  return true;
}
static void CheckNoBytes(const absl::Status& st) {
  auto p = st.GetPayload(D::kPirInternalErrorUri);
  D::CanonicalPirError e;
  REQUIRE(p.has_value() && e.ParseFromString(std::string(*p)) && e.code() == D::CanonicalPirError::MAX_VALUE_SIZE_IS_ZERO) << st;
}
static std::string Unpad(std::string x) {
  while (!x.empty() && x.back() == 0) x.pop_back();
  return x;
}

// ---- Cuckoo ----
struct Cuckoo {
  typedef D::CuckooHashedDpfPirDatabase Db;
  static const bool kCuckoo = true;
  static void Set(Db::Builder* b, const Params& p) {
    D::CuckooHashingParams x;
    *x.mutable_hash_family_config() = Config(p);
    x.set_num_buckets(p.buckets);
    x.set_num_hash_functions(p.functions);
    b->SetParams(std::move(x));
  }
  static bool Valid(const Params& p) { return p.family && !p.seed.empty() && p.buckets > 0 && p.buckets <= 0x7fffffff && p.functions >= 2; }
  // Checks a database against the records. `keys`/`values`: what recording builders saw, if any.
  static void Check(Src& s, const Db::Interface& db, const Params& p, const std::vector<Rec>& recs, const std::vector<std::string>* keys, const std::vector<std::string>* values) {
    std::map<std::string, std::set<std::string>> want;
    for (auto& r : recs) want[r.first].insert(r.second);
    size_t n = (size_t)p.buckets;
    REQUIRE(db.size() == want.size()) << "size " << db.size() << " for " << want.size() << " keys";
    REQUIRE(db.num_selection_bits() == n) << "num_selection_bits " << db.num_selection_bits() << " for " << n << " buckets";
    std::vector<sel::Selection> q;
    for (size_t i = 0; i < n; i++) q.push_back(sel::One(n, i));
    auto r = db.InnerProductWith(q);
    bool key_bytes = !want.empty();
    bool value_bytes = false;
    std::vector<std::string> gotv(n), gotk(n);
    if (r.ok()) {
      REQUIRE(r->size() == n);
      for (size_t i = 0; i < n; i++) { gotk[i] = Unpad((*r)[i].first); gotv[i] = Unpad((*r)[i].second); }
      value_bytes = !AllEmpty(gotv);
    } else {
      // Only databases without any bytes of keys or of values cannot answer.
      CheckNoBytes(r.status());
      bool may_be_empty = !key_bytes;
      bool all = true;
      for (auto& w : want) all &= w.second.count("") > 0;
      REQUIRE(may_be_empty || all) << "no answer: " << r.status();
      s.Label("no bytes");
    }
    if (keys != nullptr) {
      REQUIRE(keys->size() == n) << "key builder was given " << keys->size() << " of " << n;
      if (r.ok()) for (size_t i = 0; i < n; i++) REQUIRE(gotk[i] == Unpad((*keys)[i])) << "bucket " << i << " answers another key than inserted";
      gotk = *keys;
    } else if (!r.ok()) return;
    if (values != nullptr) {
      REQUIRE(values->size() == n) << "value builder was given " << values->size() << " of " << n;
      if (r.ok()) for (size_t i = 0; i < n; i++) REQUIRE(gotv[i] == Unpad((*values)[i])) << "bucket " << i << " answers another value than inserted";
      gotv = *values;
    }
    (void)value_bytes;
    std::map<std::string, int> seen;
    for (size_t i = 0; i < n; i++) {
      if (gotk[i].empty()) { REQUIRE(gotv[i].empty()) << "bucket " << i << " has a value but no key"; continue; }
      auto it = want.find(gotk[i]);
      REQUIRE(it != want.end()) << "bucket " << i << " holds key " << pbt::Hex(gotk[i]) << ", never inserted";
      REQUIRE(seen[gotk[i]]++ == 0) << "key " << pbt::Hex(gotk[i]) << " is stored twice";
      bool here = false;
      for (int f = 0; f < p.functions; f++) here |= Pos(p, f, gotk[i]) == (int)i;
      REQUIRE(here) << "key " << pbt::Hex(gotk[i]) << " is in bucket " << i << ", where no hash function maps it";
      if (r.ok() || values != nullptr) {
        bool ok = false;
        for (auto& v : it->second) ok |= values != nullptr ? v == gotv[i] : Unpad(v) == gotv[i];
        REQUIRE(ok) << "key " << pbt::Hex(gotk[i]) << " has value " << pbt::Hex(gotv[i]);
      }
    }
    for (auto& w : want) REQUIRE(seen.count(w.first)) << "key " << pbt::Hex(w.first) << " is missing from the database (" << want.size() << " keys, " << n << " buckets)";
    if (r.ok()) {  // several buckets at once: the xor of each
      std::vector<std::string> ks, vs;
      for (size_t i = 0; i < n; i++) { ks.push_back((*r)[i].first); vs.push_back((*r)[i].second); }
      auto q1 = sel::Random(s, n);
      auto a = db.InnerProductWith({q1});
      REQUIRE(a.ok() && a->size() == 1) << a.status();
      REQUIRE((*a)[0].first == sel::Xor(ks, q1) && (*a)[0].second == sel::Xor(vs, q1)) << "answer to a selection of several buckets";
    }
  }
  // Whether a failed build is acceptable for valid arguments.
  static void CheckFailure(Src& s, const Params& p, const std::vector<Rec>& recs, const absl::Status& st) {
    std::set<std::string> keys;
    for (auto& r : recs) keys.insert(r.first);
    bool feasible = Matching(p, keys) == keys.size();
    s.Label(feasible ? "does not fit though feasible" : "does not fit");
    REQUIRE(!(feasible && keys.size() * 3 <= (size_t)p.buckets)) << keys.size() << " keys do not go into " << p.buckets << " buckets: " << st;
  }
};

// ---- Simple ----
struct Simple {
  typedef D::SimpleHashedDpfPirDatabase Db;
  static const bool kCuckoo = false;
  static void Set(Db::Builder* b, const Params& p) {
    D::SimpleHashingParams x;
    *x.mutable_hash_family_config() = Config(p);
    x.set_num_buckets(p.buckets);
    b->SetParams(std::move(x));
  }
  static bool Valid(const Params& p) { return p.family && !p.seed.empty() && p.buckets > 0 && p.buckets <= 0x7fffffff; }
  static void Check(Src& s, const Db::Interface& db, const Params& p, const std::vector<Rec>& recs, const std::vector<std::string>* buckets, const std::vector<std::string>*) {
    size_t n = (size_t)p.buckets;
    REQUIRE(db.size() == recs.size()) << "size " << db.size() << " for " << recs.size() << " records";
    REQUIRE(db.num_selection_bits() == n) << "num_selection_bits " << db.num_selection_bits() << " for " << n << " buckets";
    std::vector<std::vector<Rec>> want(n);
    for (auto& r : recs) want[Pos(p, 0, r.first)].push_back(r);
    std::vector<sel::Selection> q;
    for (size_t i = 0; i < n; i++) q.push_back(sel::One(n, i));
    auto r = db.InnerProductWith(q);
    if (recs.empty()) { REQUIRE(!r.ok()); CheckNoBytes(r.status()); s.Label("no bytes"); return; }
    REQUIRE(r.ok()) << r.status();
    REQUIRE(r->size() == n);
    if (buckets != nullptr) REQUIRE(buckets->size() == n) << "dense builder was given " << buckets->size() << " of " << n;
    for (size_t i = 0; i < n; i++) {
      if (buckets != nullptr) REQUIRE(Unpad((*buckets)[i]) == Unpad((*r)[i])) << "bucket " << i << " answers something else than inserted";
      D::HashedPirDatabaseBucket b;
      google::protobuf::io::CodedInputStream in((const uint8_t*)(*r)[i].data(), (int)(*r)[i].size());
      b.ParseFromCodedStream(&in);
      REQUIRE(b.keys_size() == b.values_size()) << "bucket " << i << ": " << b.keys_size() << " keys, " << b.values_size() << " values";
      std::vector<Rec> got;
      for (int j = 0; j < b.keys_size(); j++) got.push_back({b.keys(j), b.values(j)});
      std::sort(got.begin(), got.end());
      std::sort(want[i].begin(), want[i].end());
      REQUIRE(got == want[i]) << "bucket " << i << " holds " << got.size() << " records, expected " << want[i].size();
    }
    auto q1 = sel::Random(s, n);
    auto a = db.InnerProductWith({q1});
    REQUIRE(a.ok() && a->size() == 1) << a.status();
    REQUIRE((*a)[0] == sel::Xor(*r, q1)) << "answer to a selection of several buckets";
  }
  static void CheckFailure(Src&, const Params&, const std::vector<Rec>&, const absl::Status& st) {
    FAIL_CASE() << "build refused: " << st;
  }
};

template <typename K> static void SetDense(typename K::Db::Builder* b, int which, std::unique_ptr<Dense::Interface::Builder> d) {
  if constexpr (K::kCuckoo) { if (which == 0) b->SetKeyDatabaseBuilder(std::move(d)); else b->SetValueDatabaseBuilder(std::move(d)); }
  else b->SetDenseDatabaseBuilder(std::move(d));
}

template <typename K> static void Histories(Src& s) {
  struct Slot {
    std::unique_ptr<typename K::Db::Interface::Builder> b;
    std::vector<Rec> recs;
    Params p;
    std::shared_ptr<Log> log[2];
    bool built = false, reused = false;
  };
  struct Base { std::unique_ptr<typename K::Db::Interface> d; Params p; std::vector<Rec> recs; };
  std::vector<Slot> bs;
  std::vector<Base> ds;
  bool nul_ok = s.Bool();  // keys ending in NUL are identified through recording builders only
  int max_buckets = (int)s.Pick({3, 8, 20, 60});
  auto fresh = [&] {
    Slot x;
    x.b = std::make_unique<typename K::Db::Builder>();
    if (nul_ok)
      for (int i = 0; i < (K::kCuckoo ? 2 : 1); i++) {
        x.log[i] = std::make_shared<Log>();
        SetDense<K>(static_cast<typename K::Db::Builder*>(x.b.get()), i, std::make_unique<Recorder>(x.log[i]));
      }
    if (!s.Chance(1, 6)) {
      x.p = DrawParams(s, max_buckets, K::kCuckoo);
      NOTE(s, "params " << x.p.Show());
      K::Set(static_cast<typename K::Db::Builder*>(x.b.get()), x.p);
    }
    bs.push_back(std::move(x));
  };
  fresh();
  int ops = (int)s.Int(3, 40);
  for (int op = 0; op < ops; op++) {
    Slot& x = bs[s.Draw(bs.size() - 1)];
    size_t id = &x - &bs[0];
    auto* concrete = dynamic_cast<typename K::Db::Builder*>(x.b.get());
    REQUIRE(concrete != nullptr) << "Clone gave another kind of builder";
    switch (s.Draw(11)) {
      default: {
        int n = (int)s.Small(1, 10);
        NOTE(s, "b" << id << ".insert");
        for (int i = 0; i < n; i++) {
          Rec r{DrawKey(s, x.recs, nul_ok), DrawValue(s)};
          NOTE(s, pbt::Hex(r.first) << "=" << pbt::Hex(r.second, 16));
          x.recs.push_back(r);
          auto& same = x.b->Insert(std::move(r));
          REQUIRE(&same == x.b.get()) << "Insert must return the builder itself";
        }
        break;
      }
      case 4:
        x.p = DrawParams(s, max_buckets, K::kCuckoo);
        NOTE(s, "b" << id << ".params " << x.p.Show());
        K::Set(concrete, x.p);
        break;
      case 5: {
        if (bs.size() >= 4) break;
        NOTE(s, "b" << id << ".clone");
        Slot c{x.b->Clone(), x.recs, x.p, {x.log[0], x.log[1]}, x.built, true};
        REQUIRE(c.b != nullptr);
        x.reused = true;
        bs.push_back(std::move(c));
        break;
      }
      case 6: case 7:
        NOTE(s, "b" << id << ".clear");
        x.b->Clear();
        x.recs.clear();
        x.built = false;
        x.reused = true;
        break;
      case 8: {
        int which = K::kCuckoo ? (int)s.Draw(1) : 0;
        std::unique_ptr<Dense::Interface::Builder> d;
        int kind = (int)s.Draw(nul_ok ? 1 : 3);
        NOTE(s, "b" << id << ".dense builder " << which << " kind " << kind);
        std::shared_ptr<Log> log;
        if (kind == 3) SetDense<K>(concrete, which, nullptr);
        else {
          if (kind <= 1) { log = std::make_shared<Log>(); d = std::make_unique<Recorder>(log); }
          else d = std::make_unique<Dense::Builder>();
          int junk = (int)s.Draw(4);
          for (int i = 0; i < junk; i++) d->Insert("junk" + std::to_string(i));
          if (s.Chance(1, 4)) { auto r = d->Build(); REQUIRE(r.ok()); }
          if (log && s.Chance(1, 6)) log->fail = true;
          SetDense<K>(concrete, which, std::move(d));
        }
        x.log[which] = log;
        x.reused = true;
        break;
      }
      case 9: case 10: case 11: {
        NOTE(s, "b" << id << ".build" << (x.built ? " (again)" : ""));
        bool fault = (x.log[0] && x.log[0]->fail) || (x.log[1] && x.log[1]->fail);
        auto r = x.b->Build();
        if (x.built) {
          REQUIRE(!r.ok()) << "built twice";
          REQUIRE(r.status().code() == absl::StatusCode::kFailedPrecondition) << r.status();
          s.Label("refused build");
          break;
        }
        x.built = true;
        bool empty_key = false;
        for (auto& rec : x.recs) empty_key |= rec.first.empty();
        if (!K::Valid(x.p) || empty_key) {
          REQUIRE(!r.ok()) << "built with " << x.p.Show() << (empty_key ? " and an empty key" : "");
          bool truncated = x.p.buckets > 0x7fffffff;
          if (!truncated) REQUIRE(r.status().code() == absl::StatusCode::kInvalidArgument) << r.status();
          s.Label(empty_key ? "empty key" : "invalid parameters");
          break;
        }
        if (fault && !r.ok() && r.status().code() == absl::StatusCode::kDataLoss) { s.Label("dense builder failed"); break; }
        // A fresh builder with the same records has the same outcome.
        typename K::Db::Builder f;
        K::Set(&f, x.p);
        for (auto& rec : x.recs) f.Insert(rec);
        auto fr = f.Build();
        REQUIRE(fr.ok() == r.ok()) << "fresh builder: " << fr.status() << ", this one: " << r.status();
        if (!r.ok()) { K::CheckFailure(s, x.p, x.recs, r.status()); break; }
        REQUIRE(!fault) << "a dense builder failed, the build did not";
        REQUIRE(*r != nullptr);
        K::Check(s, **r, x.p, x.recs, x.log[0] ? &x.log[0]->last : nullptr, x.log[1] ? &x.log[1]->last : nullptr);
        std::vector<sel::Selection> q;
        for (size_t i = 0; i < (size_t)x.p.buckets; i++) q.push_back(sel::One(x.p.buckets, i));
        auto a = (*r)->InnerProductWith(q), b = (*fr)->InnerProductWith(q);
        REQUIRE(a.ok() == b.ok());
        if (a.ok()) REQUIRE(*a == *b) << "two builders with the same records give different databases";
        s.NonTrivial(x.reused && x.recs.size() >= 2);
        if (!nul_ok) ds.push_back({std::move(*r), x.p, x.recs});
        x.recs.clear();  // unspecified after a build; only Clear makes the builder usable again
        break;
      }
    }
  }
  bs.clear();
  for (auto& d : ds) K::Check(s, *d.d, d.p, d.recs, nullptr, nullptr);
}
CASE(cuckoo_histories, 1500, 80000) { Histories<Cuckoo>(s); }
CASE(simple_histories, 1500, 80000) { Histories<Simple>(s); }

// One build of the parameters a server would generate.
CASE(default_parameters, 1500, 60000) {
  int n = (int)(s.Chance(1, 8) ? s.Int(1, 200) : s.Small(1, 30));
  Params p{true, (int64_t)(1.5 * n), 3, s.Blob(16)};
  if (p.seed.find_first_not_of('\0') == std::string::npos) p.seed = std::string(16, 'x');
  std::vector<Rec> recs;
  std::set<std::string> keys;
  for (int i = 0; i < n; i++) { recs.push_back({"record" + std::to_string(s.Draw(100000)), "v" + std::to_string(i)}); keys.insert(recs.back().first); }
  NOTE(s, n << " records, " << p.Show());
  D::CuckooHashedDpfPirDatabase::Builder b;
  Cuckoo::Set(&b, p);
  for (auto& r : recs) b.Insert(r);
  auto r = b.Build();
  if (!r.ok()) { Cuckoo::CheckFailure(s, p, recs, r.status()); return; }
  Cuckoo::Check(s, **r, p, recs, nullptr, nullptr);
  s.NonTrivial(n >= 2);
}

// Thousands of records, long keys and values.
CASE(large_tables, 12, 400) {
  bool cuckoo = s.Bool();
  int n = (int)s.Small(200, 4000);
  size_t klen = (size_t)(s.Bool() ? s.Int(8, 20) : s.Small(20, 1500)), vlen = (size_t)(s.Bool() ? s.Int(1, 20) : s.Small(20, 1500));
  if (n > 1000) { klen = std::min<size_t>(klen, 40); vlen = std::min<size_t>(vlen, 40); }
  Params p{true, cuckoo ? (int64_t)(1.5 * n) : (int64_t)s.Small(1, 2 * n), 3, s.Blob(16)};
  if (p.seed.find_first_not_of('\0') == std::string::npos) p.seed = std::string(16, 'x');
  pbt::Rng r{s.Draw(~0ull)};
  std::vector<Rec> recs;
  for (int i = 0; i < n; i++) recs.push_back({std::to_string(i) + "/" + Src::Expand(r.Next() | 1, r.Next() % klen) + "k", Src::Expand(r.Next() | 1, r.Next() % vlen) + "v"});
  NOTE(s, n << " records, keys up to " << klen << ", values up to " << vlen << " bytes, " << p.Show());
  if (cuckoo) {
    D::CuckooHashedDpfPirDatabase::Builder b;
    Cuckoo::Set(&b, p);
    for (auto& x : recs) b.Insert(x);
    auto y = b.Build();
    if (!y.ok()) { Cuckoo::CheckFailure(s, p, recs, y.status()); return; }
    Cuckoo::Check(s, **y, p, recs, nullptr, nullptr);
  } else {
    D::SimpleHashedDpfPirDatabase::Builder b;
    Simple::Set(&b, p);
    for (auto& x : recs) b.Insert(x);
    auto y = b.Build();
    if (!y.ok()) { Simple::CheckFailure(s, p, recs, y.status()); return; }
    Simple::Check(s, **y, p, recs, nullptr, nullptr);
  }
  s.NonTrivial();
}
