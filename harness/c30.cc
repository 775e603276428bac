// C30: a retrieval request shows a server the number of queries and no more.
// LIBS: pir
#include <set>
#include "pbt.h"
#include "pirx.h"
#include "secrecy.h"

using namespace pirx;
using namespace secrecy;

const char* const pbt::kRule =
    "A case draws a client (by index, or by keyword with either hashing), its configuration, a batch of 1..3 queries, fixed "
    "or drawn anew each time from a list of related ones (stored keys and others alike, the client cannot tell), and makes "
    "hundreds to thousands of requests over either route. All numbers that one server receives, the one-time pad seed and the "
    "choice of queries must be linearly independent over GF(2) and pairwise uncorrelated, the structure of the messages must "
    "be the same for all queries, and no 128-bit block may occur twice in different keys. Non-trivial: at least 200 requests.";
const std::vector<std::string> pbt::kAssumptions = {
    "the library's RAND_bytes is replaced by a seeded stream whose bytes stand for true randomness",
    "the hybrid encryption of the helper's request is replaced by a reversible encoding that hides nothing but counts as hiding all",
    "linear independence and pairwise correlation stand for secrecy; a leak that neither shows is not detected"};

static u128 Blk(const D::Block& b) { return ((u128)b.high() << 64) | b.low(); }
template <typename M> std::string Fields(const M& m) {
  std::vector<const google::protobuf::FieldDescriptor*> f;
  m.GetReflection()->ListFields(m, &f);
  std::string r;
  for (auto* x : f) r += std::to_string(x->number()) + ",";
  return r + std::to_string(m.GetReflection()->GetUnknownFields(m).field_count()) + ";";
}
static void AddValue(const D::Value& v, Numbers* n, std::string* shape) {
  *shape += "v" + std::to_string(v.value_case());
  u128 x = v.xor_wrapper().has_value_uint128() ? Blk(v.xor_wrapper().value_uint128()) : v.xor_wrapper().value_uint64();
  PushU(&n->uniform, x, 128);
  n->blocks.push_back(x);
}
// The keys one server receives.
static void AddKeys(const D::DpfPirRequest::PlainRequest& r, Numbers* n, std::string* shape, int keys) {
  REQUIRE(r.dpf_key_size() == keys) << r.dpf_key_size() << " keys, expected " << keys;
  *shape += Fields(r);
  for (auto& k : r.dpf_key()) {
    *shape += "/" + std::to_string(k.party()) + Fields(k);
    REQUIRE(k.has_seed());
    PushU(&n->uniform, Blk(k.seed()), 128);
    n->blocks.push_back(Blk(k.seed()));
    for (auto& c : k.correction_words()) {
      *shape += c.has_seed() ? "s" : "-";
      *shape += std::to_string(c.GetReflection()->GetUnknownFields(c).field_count());
      PushU(&n->uniform, Blk(c.seed()) >> 1, 127);
      n->blocks.push_back(Blk(c.seed()));
      n->uniform.Push(c.control_left(), 1);
      n->uniform.Push(c.control_right(), 1);
      for (auto& v : c.value_correction()) AddValue(v, n, shape);
    }
    for (auto& v : k.last_level_value_correction()) AddValue(v, n, shape);
  }
}

// How many numbers a batch has is known beforehand: keys_per_query per query.
template <typename Client, typename Q>
static void Judge(Src& s, const Client& client, absl::string_view info, const std::vector<Q>& pool, int pool_bits, int keys_per_query, int max_batch) {
  int k = (int)s.Int(1, max_batch), route = (int)s.Draw(1);
  bool vary = s.Bool();
  pbt::Rng r{s.Draw(~0ull)};
  std::vector<Q> batch;
  std::vector<size_t> choice(k);
  for (auto& c : choice) c = s.Draw(pool.size() - 1);
  if (s.Chance(1, 4)) for (auto& c : choice) c = choice[0];  // the same query repeated
  NOTE(s, k << " queries " << (vary ? "drawn anew" : "fixed") << ", " << (route ? "plain requests" : "leader request") << ", pool of " << pool.size());
  s.Label(route ? "plain requests" : "leader request");
  Table tab[2];
  std::string shape[2];
  std::vector<std::vector<u128>> blocks[2], pads;
  std::set<std::string> pieces;
  size_t want = 200;
  for (size_t g = 0; g < want; g++) {
    gf2::Bits secret;
    batch.clear();
    for (int i = 0; i < k; i++) {
      if (vary) choice[i] = r.Next() >> (64 - pool_bits);
      batch.push_back(pool[choice[i]]);
      secret.Push(choice[i], pool_bits);
    }
    D::DpfPirRequest::PlainRequest first;
    D::DpfPirRequest::HelperRequest second;
    std::string extra;
    if (route) {
      auto q = client.CreatePlainRequests(batch);
      REQUIRE(q.ok()) << q.status();
      first = std::get<0>(*q);
      second = std::get<1>(*q);
    } else {
      auto q = client.CreateRequest(batch);
      REQUIRE(q.ok()) << q.status();
      const auto& lr = q->first.dpf_pir_request().leader_request();
      extra = Fields(q->first) + Fields(q->first.dpf_pir_request()) + Fields(lr) + Fields(lr.encrypted_helper_request());
      first = lr.plain_request();
      const std::string& sealed = lr.encrypted_helper_request().encrypted_request();
      // Nothing of the helper's request in clear: it is recovered from the sealed bytes alone.
      auto plain = Decrypt(sealed, info);
      REQUIRE(plain.ok() && second.ParseFromString(*plain)) << "the helper's request is not what was encrypted";
    }
    REQUIRE(second.one_time_pad_seed().size() == 16);
    u128 pad;
    memcpy(&pad, second.one_time_pad_seed().data(), 16);
    pads.push_back({pad});
    // No eight bytes of one pad seed occur in another.
    for (int i = 0; i <= 8; i++)
      REQUIRE(pieces.insert(second.one_time_pad_seed().substr(i, 8)).second) << "eight bytes of a one-time pad seed occur twice, now in request " << g;
    for (int p = 0; p < 2; p++) {
      Numbers n;
      std::string sh = p ? Fields(second) : extra;
      AddKeys(p ? second.plain_request() : first, &n, &sh, k * keys_per_query);
      // Neither the leader's view nor the helper's keys say anything about the pad.
      PushU(&n.uniform, pad, 128);
      if (g == 0) shape[p] = sh;
      REQUIRE(sh == shape[p]) << "server " << p << ": the request's structure is " << sh << " for some queries and " << shape[p] << " for others";
      tab[p].Add(n, secret);
      blocks[p].push_back(n.blocks);
    }
    size_t us = vary ? (size_t)k * pool_bits : 0;
    if (g == 0) want = std::min<size_t>(4200, tab[0].nu + us + 128);
  }
  CheckFresh(pads, "one-time pad seeds");
  for (int p = 0; p < 2; p++) {
    std::string what = p ? "helper" : "leader";
    size_t us = vary ? (size_t)k * pool_bits : 0;
    CheckFresh(blocks[p], what);
    if (tab[p].rows.size() >= tab[p].nu + us + 64) CheckRank(tab[p], us, what);
    CheckCorrelation(tab[p], what);
  }
  s.NonTrivial(want >= 200);
}

// Queries numbered by pool_bits bits.
static std::vector<std::string> Words(Src& s, int pool_bits) {
  std::string stem = s.Str(6);
  std::vector<std::string> r;
  for (int i = 0; i < 1 << pool_bits; i++)
    switch (i % 4) {
      case 0: r.push_back(stem + std::to_string(i)); break;
      case 1: r.push_back(std::string(i, 'a')); break;
      case 2: r.push_back(stem + std::string(i, '\0')); break;
      default: r.push_back(Src::Expand(i * 77, 1 + i * 3));
    }
  return r;
}
CASE(by_index, 60, 1500) {
  pbt::SeedRand(s.Draw(~0ull));
  int64_t n = s.Chance(1, 5) ? s.Small(1, 1 << 14) : s.Small(1, 400);
  auto client = Must(D::DenseDpfPirClient::Create(DenseConfig(n), Encrypt), "client");
  int bits = 0;
  while (bits < 5 && ((int64_t)2 << bits) <= n) bits++;
  if (bits == 0) { bits = 1; n = 2; client = Must(D::DenseDpfPirClient::Create(DenseConfig(n), Encrypt), "client"); }
  std::vector<int> pool;
  int64_t stride = s.Bool() ? 1 : n >> bits, from = s.Draw(n - 1 - (((int64_t)1 << bits) - 1) * stride);
  for (int i = 0; i < 1 << bits; i++) pool.push_back((int)(from + i * stride));
  NOTE(s, n << " values, indices from " << from << " in steps of " << stride);
  Judge(s, *client, D::DenseDpfPirServer::kEncryptionContextInfo, pool, bits, 1, 3);
}
CASE(by_keyword_cuckoo, 40, 1000) {
  pbt::SeedRand(s.Draw(~0ull));
  CuckooKind::Params p;
  p.set_num_buckets(s.Chance(1, 5) ? s.Small(1, 600) : s.Small(1, 90));
  int functions = (int)s.Int(2, 3);
  p.set_num_hash_functions(functions);
  p.mutable_hash_family_config()->set_hash_family(D::HashFamilyConfig::HASH_FAMILY_SHA256);
  p.mutable_hash_family_config()->set_seed(s.Blob(16));
  auto client = Must(CuckooKind::Client::Create(CuckooKind::Public(p), Encrypt), "client");
  NOTE(s, p.num_buckets() << " buckets, " << functions << " functions");
  Judge(s, *client, CuckooKind::Server::kEncryptionContextInfo, Words(s, 4), 4, functions, 1);
}
CASE(by_keyword_simple, 40, 1000) {
  pbt::SeedRand(s.Draw(~0ull));
  SimpleKind::Params p;
  p.set_num_buckets(s.Chance(1, 5) ? s.Small(1, 600) : s.Small(1, 90));
  p.mutable_hash_family_config()->set_hash_family(D::HashFamilyConfig::HASH_FAMILY_SHA256);
  p.mutable_hash_family_config()->set_seed(s.Blob(16));
  auto client = Must(SimpleKind::Client::Create(SimpleKind::Public(p), Encrypt), "client");
  NOTE(s, p.num_buckets() << " buckets");
  Judge(s, *client, SimpleKind::Server::kEncryptionContextInfo, Words(s, 4), 4, 1, 2);
}
// The same queries asked again, by the same client or another: nothing recurs.
CASE(fresh, 3000, 80000) {
  pbt::SeedRand(s.Draw(~0ull));
  int64_t n = s.Small(1, 100000);
  auto c1 = Must(D::DenseDpfPirClient::Create(DenseConfig(n), Encrypt), "client"), c2 = Must(D::DenseDpfPirClient::Create(DenseConfig(n), Encrypt), "client");
  int k = (int)(s.Chance(1, 10) ? s.Small(20, 120) : s.Small(1, 20)), times = (int)s.Int(2, 5);
  std::vector<int> q;
  for (int i = 0; i < k; i++) q.push_back(i && s.Chance(1, 3) ? q[s.Draw(i - 1)] : (int)s.Draw(n - 1));
  NOTE(s, n << " values, " << k << " queries asked " << times << " times");
  std::set<u128> seen;
  auto once = [&](u128 b, const char* what) { REQUIRE(seen.insert(b).second) << what << " occurs twice"; };
  for (int t = 0; t < times; t++) {
    const auto& c = s.Bool() ? *c1 : *c2;
    D::DpfPirRequest::PlainRequest a;
    D::DpfPirRequest::HelperRequest b;
    if (s.Bool()) {
      auto r = c.CreatePlainRequests(q);
      REQUIRE(r.ok()) << r.status();
      a = std::get<0>(*r), b = std::get<1>(*r);
    } else {
      auto r = c.CreateRequest(q);
      REQUIRE(r.ok()) << r.status();
      a = r->first.dpf_pir_request().leader_request().plain_request();
      auto plain = Decrypt(r->first.dpf_pir_request().leader_request().encrypted_helper_request().encrypted_request(), D::DenseDpfPirServer::kEncryptionContextInfo);
      REQUIRE(plain.ok() && b.ParseFromString(*plain));
    }
    REQUIRE(a.dpf_key_size() == k && b.plain_request().dpf_key_size() == k);
    for (int i = 0; i < k; i++)
      REQUIRE(a.dpf_key(i).party() == a.dpf_key(0).party() && b.plain_request().dpf_key(i).party() == 1 - a.dpf_key(0).party())
          << "the keys for query " << i << " are of parties " << a.dpf_key(i).party() << " and " << b.plain_request().dpf_key(i).party();
    u128 pad;
    REQUIRE(b.one_time_pad_seed().size() == 16);
    memcpy(&pad, b.one_time_pad_seed().data(), 16);
    once(pad, "a one-time pad seed");
    for (int i = 0; i < k; i++) {
      once(Blk(a.dpf_key(i).seed()), "a root seed");
      once(Blk(b.plain_request().dpf_key(i).seed()), "a root seed");
      for (auto& w : a.dpf_key(i).correction_words()) once(Blk(w.seed()), "a correction seed");
      for (auto& v : a.dpf_key(i).last_level_value_correction()) once(Blk(v.xor_wrapper().value_uint128()), "a value correction");
    }
  }
  s.NonTrivial(k > 1 && n > 128);
}
