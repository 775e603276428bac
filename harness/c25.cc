// C25: leader and helper compose: masked, complete, and errors are passed on.
// LIBS: pir
#include "keyword.h"
#include "pir/dpf_pir_server.h"

using namespace pirx;
typedef D::PirRequest Req;
typedef D::PirResponse Resp;
typedef D::DpfPirServer::ForwardHelperRequestFn SenderFn;
typedef D::DpfPirServer::DecryptHelperRequestFn DecryptFn;

const char* const pbt::kRule =
    "A case sets up a leader and a helper (dense, cuckoo or simple database, or a server defined by the harness) and sends "
    "1..8 requests, each with faults drawn for every step: sender (error, callback skipped, run early, late or twice, answer "
    "missing, short, long, of other sizes, without content), decryption (error, garbage, another plaintext), pad seed "
    "(lengths), keys (damaged for either server), encryption (error). Without a fault the answer must be the xor of the plain "
    "servers' answers under the keystream; with one, that step's error. Non-trivial: a history with both kinds of request.";
const std::vector<std::string> pbt::kAssumptions = {"the hybrid encryption of the helper's request is replaced by a table of opaque tokens"};

// A server of our own: its answer is a function of the request.
class OwnServer : public D::DpfPirServer {
 public:
  const D::PirServerPublicParams& GetPublicParams() const override { return D::PirServerPublicParams::default_instance(); }
  absl::StatusOr<Resp> HandlePlainRequest(const Req& r) const override {
    if (r.dpf_pir_request().wrapped_request_case() != D::DpfPirRequest::kPlainRequest) return absl::InvalidArgumentError("not plain");
    uint64_t h = r.dpf_pir_request().plain_request().seed_fingerprint();
    if (h % 1000 == 666) return absl::UnavailableError("own error");
    Resp out;
    out.mutable_dpf_pir_response();
    int n = (int)(h % 5);
    pbt::Rng sizes{h / 1000};
    for (int i = 0; i < n; i++) out.mutable_dpf_pir_response()->add_masked_response(Src::Expand(pbt::Mix(h * 100 + i) | 1, sizes.Next() % 50));
    return out;
  }
  absl::Status Lead(SenderFn f) { return MakeLeader(std::move(f)); }
  absl::Status Help(DecryptFn f, absl::string_view info) { return MakeHelper(std::move(f), info); }
};

// One kind of retrieval behind a common face.
struct System {
  std::function<absl::StatusOr<std::pair<Req, D::PirRequestClientState>>(Src&)> create;
  std::function<std::string(const D::PirRequestClientState&)> pad_seed;
  std::unique_ptr<D::PirServer> plain[2];
  std::function<std::unique_ptr<D::PirServer>(SenderFn)> leader;
  std::function<std::unique_ptr<D::PirServer>(DecryptFn)> helper;
  std::string context;
  bool own = false;
};

// What the encrypter saw; decryption looks tokens up here.
struct Vault {
  std::vector<std::string> plaintexts, contexts;
  absl::Status fail;
};
static std::string Token(size_t i) { return "token-" + std::to_string(i) + "-" + std::string(8, (char)(i & 0xff)); }

template <typename Client, typename Query> static void UseClient(System* y, std::shared_ptr<Client> c, std::function<Query(Src&)> q) {
  y->create = [c, q](Src& s) { auto query = q(s); return c->CreateRequest(query); };
}

static std::unique_ptr<System> MakeSystem(Src& s, Vault* vault) {
  auto y = std::make_unique<System>();
  int kind = (int)s.Draw(3);
  y->context = s.Chance(1, 3) ? "context " + s.Str(4) : "";
  bool custom = !y->context.empty();
  auto encrypt = [vault](absl::string_view p, absl::string_view info) -> absl::StatusOr<std::string> {
    vault->plaintexts.push_back(std::string(p));
    vault->contexts.push_back(std::string(info));
    if (!vault->fail.ok()) return vault->fail;
    return Token(vault->plaintexts.size() - 1);
  };
  if (kind == 0) {
    y->own = true;
    y->create = nullptr;
    for (auto& p : y->plain) p = std::make_unique<OwnServer>();
    std::string info = custom ? y->context : "own context";
    y->context = info;
    y->leader = [](SenderFn f) { auto r = std::make_unique<OwnServer>(); REQUIRE(r->Lead(std::move(f)).ok()); return r; };
    y->helper = [info](DecryptFn f) {
      auto r = std::make_unique<OwnServer>();
      {
        // The context info need not outlive the call.
        std::string copy = info;
        REQUIRE(r->Help(std::move(f), copy).ok());
        for (auto& c : copy) c = '#';
      }
      return r;
    };
    NOTE(s, "own server");
    return y;
  }
  if (kind == 1) {
    int n = (int)s.Small(1, 200);
    auto values = std::make_shared<std::vector<std::string>>();
    for (int i = 0; i < n; i++) values->push_back(Src::Expand(pbt::Mix(i + 1), (size_t)(i % 37 + 1)));
    auto cfg = DenseConfig(n);
    for (auto& p : y->plain) p = Must(D::DenseDpfPirServer::CreatePlain(cfg, DenseDb(*values)), "CreatePlain");
    y->leader = [=](SenderFn f) { return Must(D::DenseDpfPirServer::CreateLeader(cfg, DenseDb(*values), std::move(f)), "CreateLeader"); };
    y->helper = [=](DecryptFn f) { return Must(D::DenseDpfPirServer::CreateHelper(cfg, DenseDb(*values), std::move(f)), "CreateHelper"); };
    std::shared_ptr<D::DenseDpfPirClient> c = custom ? Must(D::DenseDpfPirClient::Create(cfg, encrypt, y->context), "client") : Must(D::DenseDpfPirClient::Create(cfg, encrypt), "client");
    UseClient<D::DenseDpfPirClient, std::vector<int>>(y.get(), c, [n](Src& s) { std::vector<int> q; int k = (int)s.Small(1, 4); for (int i = 0; i < k; i++) q.push_back((int)s.Draw(n - 1)); return q; });
    y->pad_seed = [](const D::PirRequestClientState& t) { return t.dense_dpf_pir_request_client_state().one_time_pad_seed(); };
    if (!custom) y->context = std::string(D::DenseDpfPirServer::kEncryptionContextInfo);
    NOTE(s, "dense, " << n << " values");
    return y;
  }
  auto keyword = [&](auto tag) {
    typedef decltype(tag) K;
    int n = (int)s.Small(1, 20);
    std::vector<Rec> recs;
    for (int i = 0; i < n; i++) recs.push_back({"key" + std::to_string(i), "value" + std::to_string(i * 7919)});
    auto p = keyword::DrawParams<K>(s, 2 * n, 3);
    if (!KeywordDb<K>(p, recs).ok()) throw pbt::Discard();
    for (auto& x : y->plain) x = Must(K::Server::CreatePlain(p, Must(KeywordDb<K>(p, recs), "Build")), "CreatePlain");
    y->leader = [=](SenderFn f) { return Must(K::Server::CreateLeader(p, Must(KeywordDb<K>(p, recs), "Build"), std::move(f)), "CreateLeader"); };
    y->helper = [=](DecryptFn f) { return Must(K::Server::CreateHelper(p, Must(KeywordDb<K>(p, recs), "Build"), std::move(f)), "CreateHelper"); };
    auto pub = K::Public(p);
    std::shared_ptr<typename K::Client> c = custom ? Must(K::Client::Create(pub, encrypt, y->context), "client") : Must(K::Client::Create(pub, encrypt), "client");
    UseClient<typename K::Client, std::vector<std::string>>(y.get(), c, [n](Src& s) { std::vector<std::string> q; int k = (int)s.Small(1, 3); for (int i = 0; i < k; i++) q.push_back("key" + std::to_string(s.Draw(n + 2))); return q; });
    if (!custom) y->context = std::string(K::Server::kEncryptionContextInfo);
    NOTE(s, n << " records, " << p.num_buckets() << " buckets");
  };
  if (kind == 2) { keyword(CuckooKind()); y->pad_seed = [](const D::PirRequestClientState& t) { return t.cuckoo_hashing_sparse_dpf_pir_request_client_state().one_time_pad_seed(); }; }
  else { keyword(SimpleKind()); y->pad_seed = [](const D::PirRequestClientState& t) { return t.simple_hashing_sparse_dpf_pir_request_client_state().one_time_pad_seed(); }; }
  return y;
}

static absl::Status DrawError(Src& s) {
  static const std::vector<absl::StatusCode> codes = {absl::StatusCode::kUnavailable, absl::StatusCode::kDeadlineExceeded, absl::StatusCode::kCancelled,
      absl::StatusCode::kPermissionDenied, absl::StatusCode::kAborted, absl::StatusCode::kDataLoss, absl::StatusCode::kUnknown, absl::StatusCode::kNotFound};
  return absl::Status(s.Pick(codes), "injected fault " + std::to_string(s.Draw(99)));
}

static void XorInto(std::string* a, const std::string& b) { for (size_t i = 0; i < a->size(); i++) (*a)[i] = (char)((*a)[i] ^ b[i]); }

// Damages a request such that a server must refuse it.
static void Damage(Src& s, bool own, D::DpfPirRequest::PlainRequest* r) {
  if (own) { r->set_seed_fingerprint(666); return; }
  if (r->dpf_key_size() == 0) return;
  switch (s.Draw(2)) {
    case 0: r->clear_dpf_key(); break;
    case 1: r->mutable_dpf_key((int)s.Draw(r->dpf_key_size() - 1))->clear_seed(); break;
    default: r->mutable_dpf_key((int)s.Draw(r->dpf_key_size() - 1))->clear_last_level_value_correction();
  }
}

CASE(requests, 3000, 120000) {
  pbt::SeedRand(s.Draw(~0ull));
  Vault vault;
  auto y = MakeSystem(s, &vault);
  std::unique_ptr<D::PirServer> helper, leader;
  // Faults of the request at hand.
  struct Plan {
    int sender = 0, decrypt = 0;
    absl::Status sender_error, decrypt_error;
    int where = 0;
    std::string decrypt_as;
  } plan;
  std::vector<Req> forwarded;
  std::vector<std::string> seen_context;
  std::set<absl::StatusCode> allowed;
  std::string replaced;
  int decrypts = 0;
  helper = y->helper([&](absl::string_view sealed, absl::string_view info) -> absl::StatusOr<std::string> {
    decrypts++;
    seen_context.push_back(std::string(info));
    if (plan.decrypt == 1) return plan.decrypt_error;
    for (size_t i = 0; i < vault.plaintexts.size(); i++)
      if (sealed == Token(i)) {
        if (vault.contexts[i] != info) return absl::PermissionDeniedError("context info differs");
        return plan.decrypt >= 2 ? plan.decrypt_as : vault.plaintexts[i];
      }
    return absl::NotFoundError("unknown token " + std::string(sealed));
  });
  leader = y->leader([&](const Req& r, absl::AnyInvocable<void()> wait) -> absl::StatusOr<Resp> {
    forwarded.push_back(r);
    if (plan.sender != 2 && plan.where == 0) wait();
    auto a = helper->HandleRequest(r);
    if (plan.sender == 1) { if (plan.where) wait(); return plan.sender_error; }
    if (plan.sender != 2 && plan.where == 1) wait();
    if (plan.sender == 3) wait();
    if (!a.ok()) return a;
    auto* m = a->mutable_dpf_pir_response()->mutable_masked_response();
    switch (plan.sender) {
      case 4: if (m->size() > 0) m->DeleteSubrange((int)(plan.decrypt_as.size() % m->size()), 1); else m->Add("x"); break;
      case 5: m->Add(std::string(m->size() ? m->Get(0).size() : 3, 'x')); break;
      case 6: if (m->size() == 0) m->Add("x"); else { auto* v = m->Mutable(m->size() - 1); if (v->empty()) *v = "y"; else v->pop_back(); } break;
      case 7: if (m->size() == 0) m->Add("x"); else *m->Mutable(0) += 'z'; break;
      case 8: if (m->size() == 0) m->Add("x"); else m->Clear(); break;
      case 9: if (m->size() == 0) m->Add("x"); else a->Clear(); break;
      default: break;
    }
    return a;
  });
  int n = (int)s.Int(1, 8);
  bool good = false, bad = false;
  std::set<std::string> seeds;
  for (int i = 0; i < n; i++) {
    plan = Plan();
    allowed.clear();
    forwarded.clear();
    decrypts = 0;
    bool faulty = s.Bool();
    Req request;
    D::DpfPirRequest::PlainRequest for_leader;
    D::DpfPirRequest::HelperRequest for_helper;
    D::PirRequestClientState state;
    vault.fail = absl::OkStatus();
    if (faulty && !y->own && s.Chance(1, 8)) {
      vault.fail = DrawError(s);
      NOTE(s, "request: encryption fails");
      auto r = y->create(s);
      REQUIRE(!r.ok() && r.status() == vault.fail) << "encryption failed with " << vault.fail << ", request: " << r.status();
      bad = true;
      continue;
    }
    if (y->own) {
      uint32_t f = (uint32_t)(s.Draw(20) * 1000 + s.Draw(400));
      for_leader.set_seed_fingerprint(f);
      uint32_t g = (f / 1000) * 1000 + (uint32_t)(s.Draw(80) * 5 + f % 5);  // same shape of answer
      for_helper.mutable_plain_request()->set_seed_fingerprint(g);
      for_helper.set_one_time_pad_seed(s.Blob(16));
      vault.plaintexts.push_back(for_helper.SerializeAsString());
      vault.contexts.push_back(y->context);
      *request.mutable_dpf_pir_request()->mutable_leader_request()->mutable_plain_request() = for_leader;
      request.mutable_dpf_pir_request()->mutable_leader_request()->mutable_encrypted_helper_request()->set_encrypted_request(Token(vault.plaintexts.size() - 1));
    } else {
      size_t before = vault.plaintexts.size();
      auto r = y->create(s);
      REQUIRE(r.ok()) << r.status();
      REQUIRE(vault.plaintexts.size() == before + 1) << "encrypter called " << vault.plaintexts.size() - before << " times";
      REQUIRE(vault.contexts.back() == y->context) << "context info " << pbt::Hex(vault.contexts.back());
      request = r->first;
      state = r->second;
      REQUIRE(for_helper.ParseFromString(vault.plaintexts.back())) << "encrypted request does not parse";
      REQUIRE(request.dpf_pir_request().wrapped_request_case() == D::DpfPirRequest::kLeaderRequest);
      const auto& lr = request.dpf_pir_request().leader_request();
      for_leader = lr.plain_request();
      REQUIRE(lr.encrypted_helper_request().encrypted_request() == Token(before)) << "the encrypter's output is not in the request";
      // What the leader sees holds neither the pad nor the helper's keys.
      std::string seen = request.SerializeAsString();
      REQUIRE(for_helper.one_time_pad_seed().size() == 16) << "pad seed of " << for_helper.one_time_pad_seed().size() << " bytes";
      REQUIRE(for_helper.one_time_pad_seed() == y->pad_seed(state)) << "the client keeps another pad seed than it sends";
      REQUIRE(seen.find(for_helper.one_time_pad_seed()) == std::string::npos) << "the leader sees the pad seed";
      REQUIRE(for_leader.dpf_key_size() == for_helper.plain_request().dpf_key_size() && for_leader.dpf_key_size() > 0);
      for (int k = 0; k < for_leader.dpf_key_size(); k++) {
        const auto &a = for_leader.dpf_key(k), &b = for_helper.plain_request().dpf_key(k);
        REQUIRE(a.party() != b.party()) << "both keys are for one party";
        REQUIRE(a.seed().SerializeAsString() != b.seed().SerializeAsString()) << "both keys have one seed";
        REQUIRE(seen.find(b.seed().SerializeAsString()) == std::string::npos) << "the leader sees a seed of the helper's key";
      }
      REQUIRE(seeds.insert(for_helper.one_time_pad_seed()).second) << "a pad seed is used for two requests";
    }
    // Faults.
    std::string what;
    bool fault = false;
    auto add = [&](std::initializer_list<absl::StatusCode> c) { allowed.insert(c); fault = true; };
    auto reseal = [&] { vault.plaintexts.back() = for_helper.SerializeAsString(); };
    if (faulty) {
      int k = (int)s.Int(1, 2);
      for (int j = 0; j < k; j++) {
        switch (s.Draw(6)) {
          case 0: plan.sender = 1; plan.sender_error = DrawError(s); add({plan.sender_error.code()}); what += "sender fails, "; break;
          case 1: plan.sender = 2; add({absl::StatusCode::kFailedPrecondition}); what += "callback not run, "; break;
          case 2: plan.sender = (int)s.Int(4, 9); add({absl::StatusCode::kInternal}); what += "helper's answer altered " + std::to_string(plan.sender) + ", "; break;
          case 3: plan.decrypt = 1; plan.decrypt_error = DrawError(s); add({plan.decrypt_error.code()}); what += "decryption fails, "; break;
          case 4: Damage(s, y->own, &for_leader); *request.mutable_dpf_pir_request()->mutable_leader_request()->mutable_plain_request() = for_leader;
                  add({y->own ? absl::StatusCode::kUnavailable : absl::StatusCode::kInvalidArgument}); what += "leader's keys damaged, "; break;
          case 5: Damage(s, y->own, for_helper.mutable_plain_request()); reseal(); add({y->own ? absl::StatusCode::kUnavailable : absl::StatusCode::kInvalidArgument}); what += "helper's keys damaged, "; break;
          default: {
            if (s.Bool()) { size_t l = (size_t)s.Pick({0, 1, 15, 17, 32}); for_helper.set_one_time_pad_seed(s.Blob(l)); reseal(); what += "pad seed of " + std::to_string(l) + " bytes, "; }
            else { plan.decrypt = 2; plan.decrypt_as = "\xff\xff\xff" + s.Str(8); what += "decryption gives garbage, "; }
            add({absl::StatusCode::kInvalidArgument});
          }
        }
      }
      // A fault drawn later may hide an earlier one of the same step.
      allowed.insert({absl::StatusCode::kInternal, absl::StatusCode::kFailedPrecondition});
      if (k == 1) {
        // With a single fault the code is known; a server that fails also shortens the answers.
        if (what.find("altered") == std::string::npos) allowed.erase(absl::StatusCode::kInternal);
        if (what.find("not run") == std::string::npos) allowed.erase(absl::StatusCode::kFailedPrecondition);
      }
    } else if (s.Chance(1, 4)) {
      plan.sender = 3;
      what = "callback run twice, ";
    }
    plan.where = (int)s.Draw(1);
    NOTE(s, "request: " << (what.empty() ? "no fault" : what) << (plan.where ? "callback late" : "callback early"));
    // The plain answers.
    auto pa = y->plain[0]->HandleRequest(Plain(for_leader));
    auto pb = y->plain[1]->HandleRequest(Plain(for_helper.plain_request()));
    auto a = leader->HandleRequest(request);
    REQUIRE(forwarded.size() <= 1) << "helper asked " << forwarded.size() << " times";
    for (auto& f : forwarded) {
      Req want;
      *want.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = request.dpf_pir_request().leader_request().encrypted_helper_request();
      REQUIRE(f.SerializeAsString() == want.SerializeAsString()) << "the leader forwards something other than the encrypted request: " << f.ShortDebugString().substr(0, 200);
    }
    if (!y->own && y->context.substr(0, 8) == "context ") {  // the client was given another context info than the helper uses
      REQUIRE(!a.ok()) << "answered in spite of another context info";
      bad = true;
      continue;
    }
    if (fault) {
      REQUIRE(!a.ok()) << "answered in spite of: " << what;
      REQUIRE(allowed.count(a.status().code())) << what << "gave " << a.status();
      if (allowed.size() == 1 && plan.sender == 1) REQUIRE(a.status() == plan.sender_error) << a.status();
      if (allowed.size() == 1 && plan.decrypt == 1) REQUIRE(a.status() == plan.decrypt_error) << a.status();
      bad = true;
      continue;
    }
    REQUIRE(a.ok()) << a.status();
    REQUIRE(decrypts == 1 && forwarded.size() == 1);
    REQUIRE(pa.ok() && pb.ok()) << pa.status() << pb.status();
    auto &x = *pa->mutable_dpf_pir_response(), &z = *pb->mutable_dpf_pir_response();
    REQUIRE(a->wrapped_pir_response_case() == Resp::kDpfPirResponse);
    REQUIRE(a->dpf_pir_response().masked_response_size() == x.masked_response_size()) << "number of answers";
    size_t total = 0;
    for (int k = 0; k < x.masked_response_size(); k++) total += x.masked_response(k).size();
    std::string mask = Keystream(for_helper.one_time_pad_seed(), total);
    size_t at = 0;
    for (int k = 0; k < x.masked_response_size(); k++) {
      std::string want = x.masked_response(k);
      REQUIRE(want.size() == z.masked_response(k).size());
      XorInto(&want, z.masked_response(k));
      XorInto(&want, mask.substr(at, want.size()));
      at += want.size();
      REQUIRE(a->dpf_pir_response().masked_response(k) == want) << "answer " << k << " is not the masked combination of both answers";
    }
    // The helper on its own.
    auto h = helper->HandleRequest(forwarded[0]);
    REQUIRE(h.ok()) << h.status();
    at = 0;
    for (int k = 0; k < z.masked_response_size(); k++) {
      std::string want = z.masked_response(k);
      XorInto(&want, mask.substr(at, want.size()));
      at += want.size();
      REQUIRE(h->dpf_pir_response().masked_response(k) == want) << "the helper's answer " << k << " is not masked by the pad";
    }
    good = true;
  }
  s.NonTrivial(good && bad);
}

// Roles must be given their functions.
CASE(roles, 1000, 5000) {
  OwnServer x;
  REQUIRE(x.role() == D::DpfPirServer::Role::kPlain);
  bool lead = s.Bool(), null = s.Bool();
  NOTE(s, (lead ? "leader" : "helper") << (null ? " without its function" : ""));
  auto st = lead ? x.Lead(null ? SenderFn() : SenderFn([](const Req&, absl::AnyInvocable<void()>) -> absl::StatusOr<Resp> { return absl::UnknownError(""); }))
                 : x.Help(null ? DecryptFn() : DecryptFn([](absl::string_view, absl::string_view) -> absl::StatusOr<std::string> { return std::string(); }), "info");
  REQUIRE(st.ok() == !null) << st;
  if (null) REQUIRE(st.code() == absl::StatusCode::kInvalidArgument) << st;
  REQUIRE(x.role() == (null ? D::DpfPirServer::Role::kPlain : lead ? D::DpfPirServer::Role::kLeader : D::DpfPirServer::Role::kHelper));
  s.NonTrivial(null);
}
