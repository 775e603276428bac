// C26: malformed retrieval messages and configurations are refused, never crash.
// LIBS: pir
#include <limits>
#include "keyword.h"
#include "protomut.h"
#include "sel.h"

using namespace pirx;
typedef D::PirRequest Req;
typedef D::PirResponse Resp;
typedef D::PirRequestClientState State;

const char* const pbt::kRule =
    "A case takes valid requests, responses, client states, public parameters or configurations of one of the three "
    "retrieval schemes and edits them (fields by reflection, elements added, dropped, copied and swapped, bytes flipped, "
    "cut and inserted, wrong kinds for the role, buckets whose keys and values do not match), in histories mixed with valid "
    "requests whose answers must stay right. Non-trivial: a message that differs from the valid one.";
const std::vector<std::string> pbt::kAssumptions = {"the hybrid encryption of the helper's request is replaced by a reversible encoding"};

static void WantInvalid(const absl::Status& st, const std::string& what) {
  REQUIRE(!st.ok()) << what << " accepted";
  REQUIRE(st.code() == absl::StatusCode::kInvalidArgument) << what << ": " << st;
}

// ---- Worlds: one scheme, ready to answer ----
struct World {
  virtual ~World() {}
  virtual D::PirServer* Server(int i) = 0;  // 0 plain, 1 leader, 2 helper
  virtual absl::StatusOr<std::pair<Req, State>> Request(Src& s) = 0;
  virtual absl::StatusOr<std::tuple<D::DpfPirRequest::PlainRequest, D::DpfPirRequest::HelperRequest, State>> PlainRequests(Src& s) = 0;
  virtual absl::Status Handle(const Resp& r, const State& st) = 0;
  // Whether the answer to the last request drawn is right.
  virtual void Verify(const Resp& r, const State& st) = 0;
  virtual std::string* PadSeed(State* st) = 0;
  virtual bool StateKind(const State& st) = 0;
  // Number of answers the state calls for; -1 any number but 0.
  virtual int64_t Answers(const State& st) = 0;
};

struct DenseWorld : World {
  std::vector<std::string> values;
  Servers<D::DenseDpfPirServer> servers;
  std::unique_ptr<D::DenseDpfPirClient> client;
  std::vector<int> q;
  size_t max = 0;
  explicit DenseWorld(Src& s) {
    int n = (int)s.Small(1, 300);
    for (int i = 0; i < n; i++) { values.push_back(Src::Expand(pbt::Mix(i + 77), (size_t)(1 + i % 23))); max = std::max(max, values.back().size()); }
    MakeDense(values, &servers);
    client = Must(D::DenseDpfPirClient::Create(DenseConfig(n), Encrypt), "client");
    NOTE(s, "dense, " << n << " values");
  }
  D::PirServer* Server(int i) override { return i == 0 ? servers.plain[0].get() : i == 1 ? servers.leader.get() : servers.helper.get(); }
  void Draw(Src& s) { q.clear(); int k = (int)s.Int(1, 3); for (int i = 0; i < k; i++) q.push_back((int)s.Draw(values.size() - 1)); }
  absl::StatusOr<std::pair<Req, State>> Request(Src& s) override { Draw(s); return client->CreateRequest(q); }
  absl::StatusOr<std::tuple<D::DpfPirRequest::PlainRequest, D::DpfPirRequest::HelperRequest, State>> PlainRequests(Src& s) override { Draw(s); return client->CreatePlainRequests(q); }
  absl::Status Handle(const Resp& r, const State& st) override { return client->HandleResponse(r, st).status(); }
  void Verify(const Resp& r, const State& st) override {
    auto a = client->HandleResponse(r, st);
    REQUIRE(a.ok() && a->size() == q.size()) << a.status();
    for (size_t i = 0; i < q.size(); i++) { std::string w = values[q[i]]; w.resize(max, '\0'); REQUIRE((*a)[i] == w) << "wrong answer to a valid request"; }
  }
  std::string* PadSeed(State* st) override { return st->mutable_dense_dpf_pir_request_client_state()->mutable_one_time_pad_seed(); }
  bool StateKind(const State& st) override { return st.has_dense_dpf_pir_request_client_state(); }
  int64_t Answers(const State&) override { return -1; }
};
template <typename K> struct KeywordWorld : World {
  std::vector<Rec> recs;
  typename K::Params p;
  Servers<typename K::Server> servers;
  std::unique_ptr<typename K::Client> client;
  std::vector<std::string> q;
  explicit KeywordWorld(Src& s) {
    int n = (int)s.Small(1, 20);
    for (int i = 0; i < n; i++) recs.push_back({"key" + std::to_string(i), "value" + std::to_string(i)});
    p = keyword::DrawParams<K>(s, 2 * n, 3);
    if (!MakeKeyword<K>(p, recs, &servers)) throw pbt::Discard();
    client = Must(K::Client::Create(K::Public(p), Encrypt), "client");
    NOTE(s, (std::is_same<K, CuckooKind>::value ? "cuckoo, " : "simple, ") << n << " records, " << p.num_buckets() << " buckets");
  }
  D::PirServer* Server(int i) override { return i == 0 ? servers.plain[0].get() : i == 1 ? (D::PirServer*)servers.leader.get() : servers.helper.get(); }
  void Draw(Src& s) { q.clear(); int k = (int)s.Int(1, 3); for (int i = 0; i < k; i++) q.push_back("key" + std::to_string(s.Draw(recs.size()))); }
  absl::StatusOr<std::pair<Req, State>> Request(Src& s) override { Draw(s); return client->CreateRequest(q); }
  absl::StatusOr<std::tuple<D::DpfPirRequest::PlainRequest, D::DpfPirRequest::HelperRequest, State>> PlainRequests(Src& s) override { Draw(s); return client->CreatePlainRequests(q); }
  absl::Status Handle(const Resp& r, const State& st) override { return client->HandleResponse(r, st).status(); }
  void Verify(const Resp& r, const State& st) override {
    auto a = client->HandleResponse(r, st);
    REQUIRE(a.ok() && a->size() == q.size()) << a.status();
    for (size_t i = 0; i < q.size(); i++) {
      const std::string* want = nullptr;
      for (auto& x : recs) if (x.first == q[i]) want = &x.second;
      REQUIRE((*a)[i].has_value() == (want != nullptr)) << "wrong answer to a valid request";
      if (want) REQUIRE(keyword::Unpad(*(*a)[i]) == *want) << "wrong answer to a valid request";
    }
  }
  std::string* PadSeed(State* st) override {
    if constexpr (std::is_same<K, CuckooKind>::value) return st->mutable_cuckoo_hashing_sparse_dpf_pir_request_client_state()->mutable_one_time_pad_seed();
    else return st->mutable_simple_hashing_sparse_dpf_pir_request_client_state()->mutable_one_time_pad_seed();
  }
  bool StateKind(const State& st) override {
    return std::is_same<K, CuckooKind>::value ? st.has_cuckoo_hashing_sparse_dpf_pir_request_client_state() : st.has_simple_hashing_sparse_dpf_pir_request_client_state();
  }
  int64_t Answers(const State& st) override {
    if constexpr (std::is_same<K, CuckooKind>::value) return 2ll * keyword::Functions(p) * st.cuckoo_hashing_sparse_dpf_pir_request_client_state().query_strings_size();
    else return st.simple_hashing_sparse_dpf_pir_request_client_state().query_strings_size();
  }
};
static std::unique_ptr<World> MakeWorld(Src& s) {
  switch (s.Draw(2)) {
    case 0: return std::make_unique<DenseWorld>(s);
    case 1: return std::make_unique<KeywordWorld<CuckooKind>>(s);
    default: return std::make_unique<KeywordWorld<SimpleKind>>(s);
  }
}

static bool KindFits(const Req& r, int role) {
  if (r.wrapped_pir_request_case() != Req::kDpfPirRequest) return false;
  auto k = r.dpf_pir_request().wrapped_request_case();
  return k == (role == 0 ? D::DpfPirRequest::kPlainRequest : role == 1 ? D::DpfPirRequest::kLeaderRequest : D::DpfPirRequest::kEncryptedHelperRequest);
}
static Req Sealed(const D::DpfPirRequest::HelperRequest& h) {
  Req r;
  r.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(*Encrypt(h.SerializeAsString(), D::DenseDpfPirServer::kEncryptionContextInfo));
  return r;
}
static std::string ContextOf(World* w) {
  if (dynamic_cast<DenseWorld*>(w)) return std::string(D::DenseDpfPirServer::kEncryptionContextInfo);
  if (dynamic_cast<KeywordWorld<CuckooKind>*>(w)) return std::string(D::CuckooHashingSparseDpfPirServer::kEncryptionContextInfo);
  return std::string(D::SimpleHashingSparseDpfPirServer::kEncryptionContextInfo);
}

CASE(requests, 4000, 200000) {
  pbt::SeedRand(s.Draw(~0ull));
  auto w = MakeWorld(s);
  int n = (int)s.Int(1, 6);
  bool differs = false;
  for (int i = 0; i < n; i++) {
    int role = (int)s.Draw(2);
    auto pr = Must(w->PlainRequests(s), "request");
    D::DpfPirRequest::HelperRequest h = std::get<1>(pr);
    Req r;
    auto seal = [&] {
      return *Encrypt(h.SerializeAsString(), ContextOf(w.get()));
    };
    std::string valid;
    auto build = [&] {
      r.Clear();
      if (role == 0) *r.mutable_dpf_pir_request()->mutable_plain_request() = std::get<0>(pr);
      if (role == 1) { *r.mutable_dpf_pir_request()->mutable_leader_request()->mutable_plain_request() = std::get<0>(pr); r.mutable_dpf_pir_request()->mutable_leader_request()->mutable_encrypted_helper_request()->set_encrypted_request(seal()); }
      if (role == 2) r.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(seal());
    };
    build();
    valid = r.SerializeAsString();
    int edits = (int)s.Int(1, 4), mode = (int)s.Draw(5);
    bool kind_known = false;
    if (mode == 0 && role != 0) {  // edit inside the encrypted part
      for (int e = 0; e < edits; e++) protomut::Mutate(s, &h);
      build();
    } else if (mode == 1) {  // another kind of request
      int other = (role + (int)s.Int(1, 2)) % 3;
      std::swap(role, other);
      build();
      std::swap(role, other);
      kind_known = true;
    } else if (mode == 2) {  // bytes
      std::string b = valid;
      for (int e = 0; e < edits; e++) b = protomut::MutateBytes(s, b);
      if (!r.ParseFromString(b)) { s.Label("does not parse"); r.Clear(); (void)r.ParsePartialFromString(b); }
    } else if (mode == 3 && role != 0) {
      std::string b = h.SerializeAsString();
      for (int e = 0; e < edits; e++) b = protomut::MutateBytes(s, b);
      auto c = *Encrypt(b, ContextOf(w.get()));
      if (role == 1) r.mutable_dpf_pir_request()->mutable_leader_request()->mutable_encrypted_helper_request()->set_encrypted_request(c);
      else r.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(c);
    } else {
      for (int e = 0; e < edits; e++) protomut::Mutate(s, &r);
    }
    differs |= r.SerializeAsString() != valid;
    NOTE(s, "role " << role << " mode " << mode << ": " << r.ShortDebugString().substr(0, 600));
    auto a = w->Server(role)->HandleRequest(r);
    if (!KindFits(r, role)) WantInvalid(a.status(), "request of another kind");
    REQUIRE(!kind_known || !a.ok());
    const D::DpfPirRequest::PlainRequest* pl = role == 0 && r.dpf_pir_request().has_plain_request() ? &r.dpf_pir_request().plain_request() : role == 1 && r.dpf_pir_request().has_leader_request() ? &r.dpf_pir_request().leader_request().plain_request() : nullptr;
    if (KindFits(r, role) && pl != nullptr) {
      if (pl->dpf_key_size() == 0) WantInvalid(a.status(), "request without keys");
      else if (role == 0 && a.ok()) {
        int per = dynamic_cast<KeywordWorld<CuckooKind>*>(w.get()) ? 2 : 1;
        REQUIRE(a->dpf_pir_response().masked_response_size() == per * pl->dpf_key_size()) << "number of answers";
      }
      if (role == 1 && !r.dpf_pir_request().leader_request().has_encrypted_helper_request()) WantInvalid(a.status(), "leader request without the helper's part");
    }
    if (a.ok()) s.Label("processed"); else s.Label("refused");
    // Valid requests are still answered.
    if (s.Chance(1, 3) || i + 1 == n) {
      auto v = Must(w->Request(s), "request");
      auto ok = w->Server(1)->HandleRequest(v.first);
      REQUIRE(ok.ok()) << "a valid request is refused afterwards: " << ok.status();
      w->Verify(*ok, v.second);
    }
  }
  s.NonTrivial(differs);
}

CASE(responses, 6000, 300000) {
  pbt::SeedRand(s.Draw(~0ull));
  auto w = MakeWorld(s);
  auto v = Must(w->Request(s), "request");
  auto a = Must(w->Server(1)->HandleRequest(v.first), "answer");
  int n = (int)s.Int(1, 5);
  bool differs = false;
  for (int i = 0; i < n; i++) {
    Resp r = a;
    State st = v.second;
    int mode = (int)s.Draw(5), edits = (int)s.Int(1, 4);
    if (mode == 0) for (int e = 0; e < edits; e++) protomut::Mutate(s, &r);
    if (mode == 1) for (int e = 0; e < edits; e++) protomut::Mutate(s, &st);
    if (mode == 2) { for (int e = 0; e < edits; e++) { protomut::Mutate(s, &r); protomut::Mutate(s, &st); } }
    if (mode == 3) { std::string b = r.SerializeAsString(); for (int e = 0; e < edits; e++) b = protomut::MutateBytes(s, b); r.Clear(); (void)r.ParsePartialFromString(b); }
    if (mode == 4) { std::string b = st.SerializeAsString(); for (int e = 0; e < edits; e++) b = protomut::MutateBytes(s, b); st.Clear(); (void)st.ParsePartialFromString(b); }
    if (mode == 5) {
      // What an answer says once unmasked, edited: buckets whose keys and values do not match, cut buckets.
      std::string mask = Keystream(*w->PadSeed(&st), 100000);
      size_t at = 0;
      for (int k = 0; k < r.dpf_pir_response().masked_response_size(); k++) {
        std::string x = r.dpf_pir_response().masked_response(k);
        for (size_t j = 0; j < x.size(); j++) x[j] ^= mask[at + j];
        if (s.Bool()) {
          D::HashedPirDatabaseBucket b;
          int nk = (int)s.Draw(4), nv = (int)s.Draw(4);
          for (int j = 0; j < nk; j++) b.add_keys(s.Bool() ? "key" + std::to_string(s.Draw(5)) : s.Str(4));
          for (int j = 0; j < nv; j++) b.add_values(s.Str(6));
          x = b.SerializeAsString();
          if (s.Bool()) x.resize(x.size() + s.Draw(20), '\0');
          if (s.Chance(1, 3)) x = protomut::MutateBytes(s, x);
        } else x = protomut::MutateBytes(s, x);
        if (x.size() > 500) x.resize(500);
        for (size_t j = 0; j < x.size(); j++) x[j] ^= mask[at + j];
        at += x.size();
        r.mutable_dpf_pir_response()->set_masked_response(k, x);
      }
    }
    differs |= r.SerializeAsString() != a.SerializeAsString() || st.SerializeAsString() != v.second.SerializeAsString();
    NOTE(s, "mode " << mode << " response " << r.ShortDebugString().substr(0, 300) << " state " << st.ShortDebugString().substr(0, 300));
    auto got = w->Handle(r, st);
    if (r.wrapped_pir_response_case() != Resp::kDpfPirResponse) WantInvalid(got, "response of another kind");
    else if (!w->StateKind(st)) WantInvalid(got, "client state of another kind");
    else {
      int64_t want = w->Answers(st);
      int have = r.dpf_pir_response().masked_response_size();
      if (have == 0 || (want >= 0 && want != have)) WantInvalid(got, std::to_string(have) + " answers");
      else if (w->PadSeed(&st)->size() != 16) WantInvalid(got, "pad seed of " + std::to_string(w->PadSeed(&st)->size()) + " bytes");
    }
    s.Label(got.ok() ? "processed" : "refused");
    w->Verify(a, v.second);
  }
  s.NonTrivial(differs);
}

// ---- Configurations ----
static int64_t DrawSize64(Src& s) {
  switch (s.Draw(3)) {
    case 0: return s.Int(-2, 20);
    case 1: return (int64_t)((1ull << s.Int(30, 62)) + (uint64_t)s.Int(-2, 6));
    case 2: return s.Pick<int64_t>({0, 1, -1, 0x7fffffff, 0x80000000ll, 0x100000000ll, 0x100000001ll, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min()});
    default: return (int64_t)s.Draw(~0ull);
  }
}
static D::HashFamilyConfig DrawFamily(Src& s) {
  D::HashFamilyConfig c;
  c.set_hash_family((D::HashFamilyConfig::HashFamily)s.Pick({1, 1, 1, 1, 0, 2, -1}));
  c.set_seed(s.Chance(1, 6) ? "" : s.Blob(16));
  return c;
}
static bool FamilyOk(const D::HashFamilyConfig& c) { return c.hash_family() == D::HashFamilyConfig::HASH_FAMILY_SHA256 && !c.seed().empty(); }

// A database that claims any size.
struct AnyDense : D::PirDatabaseInterface<D::XorWrapper<absl::uint128>, std::string> {
  size_t n, bits;
  AnyDense(size_t a, size_t b) : n(a), bits(b) {}
  absl::StatusOr<std::vector<std::string>> InnerProductWith(absl::Span<const std::vector<BlockType>> q) const override { return std::vector<std::string>(q.size(), "x"); }
  size_t size() const override { return n; }
  size_t num_selection_bits() const override { return bits; }
};
struct AnyPairs : D::PirDatabaseInterface<D::XorWrapper<absl::uint128>, std::pair<std::string, std::string>> {
  size_t n, bits;
  AnyPairs(size_t a, size_t b) : n(a), bits(b) {}
  absl::StatusOr<std::vector<std::pair<std::string, std::string>>> InnerProductWith(absl::Span<const std::vector<BlockType>> q) const override { return std::vector<std::pair<std::string, std::string>>(q.size(), {"x", "y"}); }
  size_t size() const override { return n; }
  size_t num_selection_bits() const override { return bits; }
};

struct AnySimple : D::SimpleHashingSparseDpfPirServer::Database {
  size_t n, bits;
  AnySimple(size_t a, size_t b) : n(a), bits(b) {}
  absl::StatusOr<std::vector<std::string>> InnerProductWith(absl::Span<const std::vector<BlockType>> q) const override { return std::vector<std::string>(q.size(), "x"); }
  size_t size() const override { return n; }
  size_t num_selection_bits() const override { return bits; }
};

CASE(clients, 15000, 500000) {
  pbt::SeedRand(s.Draw(~0ull));
  int kind = (int)s.Draw(2), given = s.Chance(1, 6) ? (int)s.Draw(3) : kind;  // which oneof is set
  int64_t n = DrawSize64(s);
  bool null = s.Chance(1, 10);
  bool bad = n <= 0 || given != kind || null, must = bad;
  if (kind == 0) {
    D::PirConfig c;
    if (given == 0) c.mutable_dense_dpf_pir_config()->set_num_elements(n);
    if (given == 1) c.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(n);
    if (given == 2) c.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(n);
    NOTE(s, "dense client " << c.ShortDebugString() << (null ? " no encrypter" : ""));
    auto r = null ? D::DenseDpfPirClient::Create(c, nullptr) : D::DenseDpfPirClient::Create(c, Encrypt);
    if (must) WantInvalid(r.status(), "configuration");
    if (r.ok()) {
      std::vector<int> q;
      int k = (int)s.Draw(3);
      for (int i = 0; i < k; i++) q.push_back((int)(int64_t)s.Edge(~0ull));
      auto a = (*r)->CreateRequest(q);
      for (int x : q) if (x < 0 || x >= n) WantInvalid(a.status(), "index " + std::to_string(x));
    } else if (!must) REQUIRE(r.status().code() == absl::StatusCode::kInvalidArgument) << r.status();
    s.NonTrivial(must);
    return;
  }
  D::PirServerPublicParams p;
  D::HashFamilyConfig fam = DrawFamily(s);
  int functions = (int)s.Int(-2, 5);
  if (given == 1) { auto* x = p.mutable_cuckoo_hashing_sparse_dpf_pir_server_params(); *x->mutable_hash_family_config() = fam; x->set_num_buckets(n); x->set_num_hash_functions(functions); }
  if (given == 2) { auto* x = p.mutable_simple_hashing_sparse_dpf_pir_server_params(); *x->mutable_hash_family_config() = fam; x->set_num_buckets(n); }
  must |= !FamilyOk(fam) || (kind == 1 && functions <= 0);
  NOTE(s, (kind == 1 ? "cuckoo" : "simple") << " client " << p.ShortDebugString() << (null ? " no encrypter" : ""));
  std::vector<std::string> q;
  int k = (int)s.Draw(3);
  for (int i = 0; i < k; i++) q.push_back(s.Str(6));
  auto check = [&](auto r) {
    if (must) WantInvalid(r.status(), "public parameters");
    if (!r.ok()) { REQUIRE(r.status().code() == absl::StatusCode::kInvalidArgument) << r.status(); REQUIRE(must || n > 0x7fffffff) << "refused: " << r.status(); return; }
    auto a = (*r)->CreatePlainRequests(q);
    if (a.ok()) REQUIRE(std::get<0>(*a).dpf_key_size() == k * (kind == 1 ? functions : 1)) << "number of keys";
    else REQUIRE(a.status().code() == absl::StatusCode::kInvalidArgument) << a.status();
    if (n <= 0x7fffffff && k > 0) REQUIRE(a.ok()) << a.status();
  };
  if (kind == 1) check(null ? D::CuckooHashingSparseDpfPirClient::Create(p, nullptr) : D::CuckooHashingSparseDpfPirClient::Create(p, Encrypt));
  else check(null ? D::SimpleHashingSparseDpfPirClient::Create(p, nullptr) : D::SimpleHashingSparseDpfPirClient::Create(p, Encrypt));
  s.NonTrivial(must);
}

CASE(servers, 15000, 500000) {
  pbt::SeedRand(s.Draw(~0ull));
  int kind = (int)s.Draw(2), role = (int)s.Draw(2);
  int64_t n = DrawSize64(s);
  int given = kind == 0 && s.Chance(1, 6) ? (int)s.Draw(3) : kind;
  bool no_db = s.Chance(1, 10), no_fn = role != 0 && s.Chance(1, 10);
  int64_t have = s.Chance(1, 5) ? (int64_t)((uint64_t)n + (uint64_t)s.Int(-1, 1)) : s.Chance(1, 8) ? n + (1ll << 32) * (n < (1ll << 61)) : n;
  D::HashFamilyConfig fam = DrawFamily(s);
  int functions = (int)s.Int(-2, 5);
  bool must = n <= 0 || no_db || no_fn || have != n || given != kind;
  NOTE(s, "kind " << kind << " role " << role << " size " << n << " database " << have << (no_db ? " (none)" : "") << (no_fn ? " no function" : "") << " " << fam.ShortDebugString() << " " << functions);
  auto sender = [](const Req&, absl::AnyInvocable<void()> f) -> absl::StatusOr<Resp> { f(); return Resp(); };
  auto check = [&](const absl::Status& st) {
    if (must) WantInvalid(st, "server configuration");
    else REQUIRE(st.ok() || st.code() == absl::StatusCode::kInvalidArgument) << st;
  };
  auto keep = [&](auto r) {
    check(r.status());
    if (!r.ok()) return;
    REQUIRE(*r != nullptr);
    REQUIRE((int)(*r)->role() == role);
    // Not this kind of request for any role.
    WantInvalid((*r)->HandleRequest(Req()).status(), "empty request");
  };
  if (kind == 0) {
    D::PirConfig c;
    if (given == 0) c.mutable_dense_dpf_pir_config()->set_num_elements(n);
    if (given == 1) c.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(n);
    if (given == 2) c.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(n);
    auto db = [&]() -> std::unique_ptr<D::DenseDpfPirServer::Database> { return no_db ? nullptr : std::make_unique<AnyDense>((size_t)have, (size_t)have); };
    if (role == 0) keep(D::DenseDpfPirServer::CreatePlain(c, db()));
    else if (role == 1) keep(no_fn ? D::DenseDpfPirServer::CreateLeader(c, db(), nullptr) : D::DenseDpfPirServer::CreateLeader(c, db(), sender));
    else keep(no_fn ? D::DenseDpfPirServer::CreateHelper(c, db(), nullptr) : D::DenseDpfPirServer::CreateHelper(c, db(), Decrypt));
  } else if (kind == 1) {
    D::CuckooHashingParams p;
    *p.mutable_hash_family_config() = fam;
    p.set_num_buckets(n);
    p.set_num_hash_functions(functions);
    must |= functions <= 0 || fam.hash_family() == 0;
    auto db = [&]() -> std::unique_ptr<D::CuckooHashingSparseDpfPirServer::Database> { return no_db ? nullptr : std::make_unique<AnyPairs>(s.Draw(3), (size_t)have); };
    typedef D::CuckooHashingSparseDpfPirServer S;
    if (role == 0) keep(S::CreatePlain(p, db()));
    else if (role == 1) keep(no_fn ? S::CreateLeader(p, db(), nullptr) : S::CreateLeader(p, db(), sender));
    else keep(no_fn ? S::CreateHelper(p, db(), nullptr) : S::CreateHelper(p, db(), Decrypt));
  } else {
    D::SimpleHashingParams p;
    *p.mutable_hash_family_config() = fam;
    p.set_num_buckets(n);
    must |= fam.hash_family() == 0;
    auto db = [&]() -> std::unique_ptr<D::SimpleHashingSparseDpfPirServer::Database> { return no_db ? nullptr : std::make_unique<AnySimple>(s.Draw(3), (size_t)have); };
    typedef D::SimpleHashingSparseDpfPirServer S;
    if (role == 0) keep(S::CreatePlain(p, db()));
    else if (role == 1) keep(no_fn ? S::CreateLeader(p, db(), nullptr) : S::CreateLeader(p, db(), sender));
    else keep(no_fn ? S::CreateHelper(p, db(), nullptr) : S::CreateHelper(p, db(), Decrypt));
  }
  s.NonTrivial(must);
}

CASE(generate_params, 15000, 400000) {
  pbt::SeedRand(s.Draw(~0ull));
  bool cuckoo = s.Bool();
  int given = s.Chance(1, 5) ? (int)s.Draw(3) : cuckoo ? 1 : 2;
  int64_t n = DrawSize64(s);
  auto fam = (D::HashFamilyConfig::HashFamily)s.Pick({1, 1, 1, 0});
  D::PirConfig c;
  if (given == 0) c.mutable_dense_dpf_pir_config()->set_num_elements(n);
  if (given == 1) { c.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(n); c.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_hash_family(fam); }
  if (given == 2) { c.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(n); c.mutable_simple_hashing_sparse_dpf_pir_config()->set_hash_family(fam); }
  NOTE(s, (cuckoo ? "cuckoo " : "simple ") << c.ShortDebugString());
  bool must = n <= 0 || fam == 0 || given != (cuckoo ? 1 : 2);
  auto check = [&](auto r) {
    if (must) WantInvalid(r.status(), "configuration");
    if (!r.ok()) { REQUIRE(r.status().code() == absl::StatusCode::kInvalidArgument && (must || n > 0x7fffffff)) << r.status(); return; }
    REQUIRE(r->num_buckets() >= n) << r->num_buckets() << " buckets for " << n;
    REQUIRE(r->hash_family_config().hash_family() == fam && r->hash_family_config().seed().size() == 16) << r->ShortDebugString();
  };
  if (cuckoo) check(D::CuckooHashingSparseDpfPirServer::GenerateParams(c)); else check(D::SimpleHashingSparseDpfPirServer::GenerateParams(c));
  s.NonTrivial(must);
}
