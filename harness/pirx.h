// Two-server retrieval end to end: servers in every role, a stand-in for the
// hybrid encryption of the helper's request, and both ways of asking.
#ifndef VERIF_PIRX_H_
#define VERIF_PIRX_H_
#include <memory>
#include <string>
#include <tuple>
#include <vector>
#include "absl/functional/any_invocable.h"
#include "absl/status/statusor.h"
#include "absl/types/optional.h"
#include "pbt.h"
#include "pir/canonical_status_payload_uris.h"
#include "pir/cuckoo_hashed_dpf_pir_database.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_client.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_server.h"
#include "pir/dense_dpf_pir_client.h"
#include "pir/dense_dpf_pir_database.h"
#include "pir/dense_dpf_pir_server.h"
#include "pir/private_information_retrieval.pb.h"
#include "pir/prng/aes_128_ctr_seeded_prng.h"
#include "pir/simple_hashed_dpf_pir_database.h"
#include "pir/simple_hashing_sparse_dpf_pir_client.h"
#include "pir/simple_hashing_sparse_dpf_pir_server.h"
#include "ref_aes.h"
#include "ref_sha256.h"

namespace pirx {
namespace D = distributed_point_functions;
using pbt::Src;

// Not an encryption; bound to the context info like one.
inline absl::StatusOr<std::string> Encrypt(absl::string_view plain, absl::string_view info) {
  std::string r = "sealed:" + std::string(info) + ":";
  for (char c : plain) r += (char)(c ^ 0x5a);
  return r;
}
inline absl::StatusOr<std::string> Decrypt(absl::string_view sealed, absl::string_view info) {
  std::string head = "sealed:" + std::string(info) + ":";
  if (sealed.substr(0, head.size()) != head) return absl::InvalidArgumentError("cannot decrypt");
  std::string r;
  for (char c : sealed.substr(head.size())) r += (char)(c ^ 0x5a);
  return r;
}

// The keystream of the one-time pad, computed independently (AES-128 in counter
// mode, 128-bit big-endian counter starting at 0).
inline std::string Keystream(const std::string& seed, size_t n) {
  std::string r;
  REQUIRE(seed.size() == 16) << "one-time pad seed of " << seed.size() << " bytes";
  ref::Aes128 aes((const uint8_t*)seed.data());
  pbt::u128 ctr = 0;
  while (r.size() < n) {
    uint8_t block[16], out[16];
    for (int i = 0; i < 16; i++) block[i] = (uint8_t)(ctr >> (8 * (15 - i)));
    aes.Encrypt(block, out);
    r.append((char*)out, 16);
    ctr++;
  }
  r.resize(n);
  return r;
}

template <typename Server> struct Servers {
  std::unique_ptr<Server> plain[2], leader, helper;
  int leader_first = 0;  // order of the leader's and the helper's work
};

// Sends helper requests straight to the helper.
template <typename Server> auto Sender(Servers<Server>* s) {
  return [s](const D::PirRequest& r, absl::AnyInvocable<void()> while_waiting) -> absl::StatusOr<D::PirResponse> {
    if (s->leader_first) while_waiting();
    // What travels is bytes.
    D::PirRequest copy;
    if (!copy.ParseFromString(r.SerializeAsString())) return absl::DataLossError("request does not survive serialisation");
    auto out = s->helper->HandleRequest(copy);
    if (!s->leader_first) while_waiting();
    return out;
  };
}

inline D::PirRequest Plain(const D::DpfPirRequest::PlainRequest& r) {
  D::PirRequest x;
  *x.mutable_dpf_pir_request()->mutable_plain_request() = r;
  return x;
}

// Asks through one of three routes. `Result` is what the client's HandleResponse gives.
template <typename Client, typename Server, typename Query>
auto Ask(Src& s, const Client& client, const Servers<Server>& servers, const Query& q, int route, int keys_per_request) -> decltype(client.HandleResponse(D::PirResponse(), D::PirRequestClientState())) {
  if (route == 0) {  // leader and helper
    auto r = client.CreateRequest(q);
    if (!r.ok()) return r.status();
    const auto& lr = r->first.dpf_pir_request().leader_request();
    REQUIRE(lr.plain_request().dpf_key_size() == keys_per_request) << lr.plain_request().dpf_key_size() << " keys in the request, expected " << keys_per_request;
    D::PirRequest copy;
    REQUIRE(copy.ParseFromString(r->first.SerializeAsString()));
    auto a = servers.leader->HandleRequest(copy);
    if (!a.ok()) return a.status();
    return client.HandleResponse(*a, r->second);
  }
  // Two plain servers; the caller combines (and, for the client, masks) the answers.
  auto r = client.CreatePlainRequests(q);
  if (!r.ok()) return r.status();
  auto& [leader, helper, state] = *r;
  REQUIRE(leader.dpf_key_size() == keys_per_request && helper.plain_request().dpf_key_size() == keys_per_request) << leader.dpf_key_size() << " keys in the request, expected " << keys_per_request;
  auto a = servers.plain[0]->HandleRequest(Plain(leader));
  auto b = servers.plain[1]->HandleRequest(Plain(helper.plain_request()));
  REQUIRE(a.ok() == b.ok()) << "the servers disagree: " << a.status() << " / " << b.status();
  if (!a.ok()) return a.status();
  auto *x = a->mutable_dpf_pir_response(), *y = b->mutable_dpf_pir_response();
  REQUIRE(x->masked_response_size() == y->masked_response_size());
  size_t total = 0;
  for (int i = 0; i < x->masked_response_size(); i++) total += x->masked_response(i).size();
  std::string mask = Keystream(helper.one_time_pad_seed(), total);
  size_t at = 0;
  for (int i = 0; i < x->masked_response_size(); i++) {
    std::string& v = *x->mutable_masked_response(i);
    REQUIRE(v.size() == y->masked_response(i).size());
    for (size_t j = 0; j < v.size(); j++) v[j] = (char)(v[j] ^ y->masked_response(i)[j] ^ mask[at++]);
  }
  return client.HandleResponse(*a, state);
}

inline bool IsNoBytes(const absl::Status& st) {
  auto p = st.GetPayload(D::kPirInternalErrorUri);
  D::CanonicalPirError e;
  return p.has_value() && e.ParseFromString(std::string(*p)) && e.code() == D::CanonicalPirError::MAX_VALUE_SIZE_IS_ZERO;
}

template <typename S> S Must(absl::StatusOr<S> r, const char* what) {
  REQUIRE(r.ok()) << what << ": " << r.status();
  return std::move(*r);
}

// ---- dense ----
inline std::unique_ptr<D::DenseDpfPirServer::Database> DenseDb(const std::vector<std::string>& values) {
  D::DenseDpfPirDatabase::Builder b;
  for (auto& v : values) b.Insert(v);
  return Must(b.Build(), "building the database");
}
inline D::PirConfig DenseConfig(int64_t n) {
  D::PirConfig c;
  c.mutable_dense_dpf_pir_config()->set_num_elements(n);
  return c;
}
inline void MakeDense(const std::vector<std::string>& values, Servers<D::DenseDpfPirServer>* out) {
  auto c = DenseConfig((int64_t)values.size());
  for (auto& p : out->plain) p = Must(D::DenseDpfPirServer::CreatePlain(c, DenseDb(values)), "CreatePlain");
  out->helper = Must(D::DenseDpfPirServer::CreateHelper(c, DenseDb(values), Decrypt), "CreateHelper");
  out->leader = Must(D::DenseDpfPirServer::CreateLeader(c, DenseDb(values), Sender(out)), "CreateLeader");
}

// ---- keyword ----
typedef std::pair<std::string, std::string> Rec;
inline int Pos(const std::string& seed, int i, const std::string& key, int64_t buckets) {
  return ref::DigestMod(ref::Sha256(seed + std::to_string(i) + key), (int)buckets);
}
struct CuckooKind {
  typedef D::CuckooHashingParams Params;
  typedef D::CuckooHashingSparseDpfPirServer Server;
  typedef D::CuckooHashingSparseDpfPirClient Client;
  typedef D::CuckooHashedDpfPirDatabase Db;
  static D::PirServerPublicParams Public(const Params& p) { D::PirServerPublicParams r; *r.mutable_cuckoo_hashing_sparse_dpf_pir_server_params() = p; return r; }
};
struct SimpleKind {
  typedef D::SimpleHashingParams Params;
  typedef D::SimpleHashingSparseDpfPirServer Server;
  typedef D::SimpleHashingSparseDpfPirClient Client;
  typedef D::SimpleHashedDpfPirDatabase Db;
  static D::PirServerPublicParams Public(const Params& p) { D::PirServerPublicParams r; *r.mutable_simple_hashing_sparse_dpf_pir_server_params() = p; return r; }
};
// The database, or the error of building it (a cuckoo table may not fit).
template <typename K> absl::StatusOr<std::unique_ptr<typename K::Server::Database>> KeywordDb(const typename K::Params& p, const std::vector<Rec>& recs) {
  typename K::Db::Builder b;
  b.SetParams(p);
  for (auto& r : recs) b.Insert(r);
  return b.Build();
}
// False if the records do not fit.
template <typename K> bool MakeKeyword(const typename K::Params& p, const std::vector<Rec>& recs, Servers<typename K::Server>* out) {
  if (!KeywordDb<K>(p, recs).ok()) return false;
  for (auto& x : out->plain) x = Must(K::Server::CreatePlain(p, Must(KeywordDb<K>(p, recs), "Build")), "CreatePlain");
  out->helper = Must(K::Server::CreateHelper(p, Must(KeywordDb<K>(p, recs), "Build"), Decrypt), "CreateHelper");
  out->leader = Must(K::Server::CreateLeader(p, Must(KeywordDb<K>(p, recs), "Build"), Sender(out)), "CreateLeader");
  return true;
}

}  // namespace pirx
#endif
