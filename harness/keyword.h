// Keyword retrieval, for C23 and C24.
#ifndef VERIF_KEYWORD_H_
#define VERIF_KEYWORD_H_
#include <cstdlib>
#include "pirx.h"
namespace keyword {
using namespace pirx;

// Whether /verif/known_findings.txt lists the finding with this tag.
inline bool Known(const char* tag) {
  const char* e = getenv("VERIF_KNOWN");
  return e != nullptr && std::string(e).find(std::string("[") + tag + "]") != std::string::npos;
}

inline std::string Unpad(std::string x) {
  while (!x.empty() && x.back() == 0) x.pop_back();
  return x;
}

// Many records, or long ones, from few choices.
inline std::vector<Rec> DrawLargeRecords(Src& s, int n, size_t key_len, size_t value_len) {
  std::vector<Rec> r;
  pbt::Rng rng{s.Draw(~0ull)};
  for (int i = 0; i < n; i++) {
    std::string k = std::to_string(i) + "/" + Src::Expand(rng.Next() | 1, rng.Next() % (key_len + 1)) + "k";
    std::string v = Src::Expand(rng.Next() | 1, rng.Next() % (value_len + 1)) + "v";
    r.push_back({k, v});
  }
  return r;
}
inline std::vector<Rec> DrawRecords(Src& s, int n) {
  std::vector<Rec> r;
  int key_mode = (int)s.Draw(3), value_mode = (int)s.Draw(3);
  size_t key_len = (size_t)s.Int(1, 12);
  for (int i = 0; i < n; i++) {
    std::string k;
    if (!r.empty() && s.Chance(1, 6)) {  // related to an earlier key
      k = s.Pick(r).first;
      switch (s.Draw(3)) {
        case 0: k += s.Bool() ? std::string(1, '\0') : s.Str(3); break;
        case 1: if (k.size() > 1) k.pop_back(); break;
        case 2: if (!k.empty()) k[s.Draw(k.size() - 1)] ^= (char)(1 + s.Draw(254)); break;
        default: break;  // the same key again
      }
    } else if (key_mode == 0) k = "key" + std::to_string(s.Draw(9999));
    else if (key_mode == 1) k = s.Blob(key_len);
    else if (key_mode == 2) k = s.Str(6);
    else k = s.Blob(1 + s.Draw(30));
    if (k.empty()) k = "k" + std::to_string(i);
    std::string v;
    switch (value_mode) {
      case 0: v = "value" + std::to_string(i); break;
      case 1: v = s.Blob(s.Small(0, 40)); break;
      case 2: v = s.Chance(3, 4) ? "" : s.Str(8); break;
      default: v = s.Str(10);
    }
    r.push_back({k, v});
  }
  return r;
}

inline std::string DrawQuery(Src& s, const std::vector<Rec>& recs) {
  if (recs.empty()) return s.Str(5);
  std::string k = s.Pick(recs).first;
  switch (s.Draw(11)) {
    default: return k;
    case 1: return s.Str(6);
    case 2: return "key" + std::to_string(s.Draw(9999));
    case 3: k.resize(s.Draw(k.size())); return k;               // prefix
    case 4: return k + s.Str(3);                                // extension
    case 5: return k + std::string(1 + s.Draw(2), '\0');
    case 6: return Unpad(k);
    case 7: return s.Bool() ? "" : std::string(1 + s.Draw(3), '\0');
    case 8: return k + s.Pick(recs).first;
    case 9: if (!k.empty()) k[s.Draw(k.size() - 1)] ^= (char)(1u << s.Draw(7)); return k;
    case 10: return s.Blob(s.Small(0, 40));
  }
}

template <typename K> typename K::Params DrawParams(Src& s, int n, int max_functions) {
  typename K::Params p;
  p.mutable_hash_family_config()->set_hash_family(D::HashFamilyConfig::HASH_FAMILY_SHA256);
  std::string seed = s.Bool() ? s.Blob(16) : "s" + std::to_string(s.Draw(99));
  p.mutable_hash_family_config()->set_seed(seed);
  if constexpr (std::is_same<K, CuckooKind>::value) {
    p.set_num_hash_functions((int)s.Int(2, max_functions));
    p.set_num_buckets(std::max<int64_t>(1, (int64_t)n * s.Int(10, 40) / 10 + s.Draw(2)));
  } else {
    p.set_num_buckets(s.Bool() ? s.Small(1, 12) : s.Small(1, 200));
  }
  return p;
}
inline int Functions(const D::CuckooHashingParams& p) { return p.num_hash_functions(); }
inline int Functions(const D::SimpleHashingParams&) { return 1; }

inline std::string Show(const std::vector<std::string>& q) {
  std::string t;
  for (auto& x : q) t += pbt::Hex(x) + " ";
  return t;
}

// One retrieval checked against the records. `pad`: whether values come padded.
template <typename K>
void Retrieve(Src& s, const typename K::Client& client, const Servers<typename K::Server>& servers, const typename K::Params& p, const std::vector<Rec>& recs, const std::vector<std::string>& q, bool pad) {
  std::map<std::string, std::set<std::string>> want;
  std::set<std::string> unpadded;
  size_t max_key = 0, max_value = 0;
  for (auto& r : recs) {
    want[r.first].insert(r.second);
    unpadded.insert(Unpad(r.first));
    max_key = std::max(max_key, r.first.size());
    max_value = std::max(max_value, r.second.size());
  }
  int route = (int)s.Draw(1);
  NOTE(s, (route ? "two plain servers" : "leader and helper") << ", queries " << Show(q));
  auto a = Ask(s, client, servers, absl::Span<const std::string>(q), route, (int)q.size() * Functions(p));
  bool bytes = pad ? max_value > 0 : !recs.empty();
  if (!a.ok() && pad && max_value > 0 && IsNoBytes(a.status())) {
    // Which of two values of one key is stored is not specified; it may be the empty one.
    bool all = true;
    for (auto& w : want) all &= w.second.count("") > 0;
    if (all) return;
  }
  if (q.empty()) { REQUIRE(!a.ok()) << "empty batch: " << a.status(); return; }
  if (!bytes) { REQUIRE(!a.ok() && IsNoBytes(a.status())) << a.status(); s.Label("no bytes"); return; }
  REQUIRE(a.ok()) << a.status();
  REQUIRE(a->size() == q.size()) << a->size() << " answers to " << q.size() << " queries";
  bool hit = false, miss = false;
  for (size_t i = 0; i < q.size(); i++) {
    const auto& got = (*a)[i];
    auto it = want.find(q[i]);
    // Keys that differ only in NUL bytes at the end look the same once padded,
    // and keys made of NULs look like an empty bucket.
    bool ambiguous = pad && q[i].size() <= max_key && !q[i].empty() && (Unpad(q[i]).empty() || unpadded.count(Unpad(q[i])));
    if (ambiguous && it != want.end()) {
      int same = 0;
      for (auto& w : want) same += Unpad(w.first) == Unpad(q[i]);
      if (same < 2 && !Unpad(q[i]).empty()) ambiguous = false;
    }
    bool ok;
    if (it == want.end()) {
      ok = !got.has_value();
      miss = true;
      if (!ok && ambiguous && Known("nul-padding")) { s.Label("known: nul-padding"); continue; }
      REQUIRE(ok) << "query " << pbt::Hex(q[i]) << " is not stored, got " << pbt::Hex(*got);
    } else {
      hit = true;
      ok = false;
      if (got.has_value())
        for (auto v : it->second) {
          // Duplicate keys: either value; the longest one may not have been kept.
          if (pad) ok |= Unpad(v) == Unpad(*got) && got->size() >= v.size() && got->size() <= max_value; else ok |= v == *got;
        }
      if (!ok && ambiguous && Known("nul-padding")) { s.Label("known: nul-padding"); continue; }
      REQUIRE(got.has_value()) << "query " << pbt::Hex(q[i]) << " is stored, got nothing";
      REQUIRE(ok) << "query " << pbt::Hex(q[i]) << ": got " << pbt::Hex(*got) << ", stored " << pbt::Hex(*it->second.begin());
      if (pad && want.size() == recs.size()) REQUIRE(got->size() == max_value) << "value of " << got->size() << " bytes is not padded to " << max_value;
    }
  }
  s.NonTrivial(hit && miss);
}

template <typename K> void Lookups(Src& s, bool pad, const std::vector<Rec>& recs, int max_queries) {
  int n = (int)recs.size();
  typename K::Params p;
  bool generated = s.Chance(1, 3);
  if (generated) {
    D::PirConfig c;
    if constexpr (std::is_same<K, CuckooKind>::value) {
      c.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(std::max(1, n));
      c.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_hash_family(D::HashFamilyConfig::HASH_FAMILY_SHA256);
    } else {
      c.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(s.Small(1, 60));
      c.mutable_simple_hashing_sparse_dpf_pir_config()->set_hash_family(D::HashFamilyConfig::HASH_FAMILY_SHA256);
    }
    p = Must(K::Server::GenerateParams(c), "GenerateParams");
    auto again = Must(K::Server::GenerateParams(c), "GenerateParams");
    REQUIRE(p.hash_family_config().seed() != again.hash_family_config().seed()) << "two calls of GenerateParams give one seed";
    REQUIRE(p.hash_family_config().seed().size() == 16);
    REQUIRE(p.hash_family_config().hash_family() == D::HashFamilyConfig::HASH_FAMILY_SHA256);
    if constexpr (std::is_same<K, CuckooKind>::value) REQUIRE(p.num_buckets() >= n && p.num_hash_functions() >= 2);
    else REQUIRE(p.num_buckets() == c.simple_hashing_sparse_dpf_pir_config().num_buckets());
  } else {
    p = DrawParams<K>(s, n, 4);
  }
  NOTE(s, n << " records, " << p.num_buckets() << " buckets, " << Functions(p) << " functions, seed " << pbt::Hex(p.hash_family_config().seed()));
  if (s.noting) { std::string t; for (auto& r : recs) t += pbt::Hex(r.first, 16) + "=" + pbt::Hex(r.second, 16) + " "; NOTE(s, t); }
  Servers<typename K::Server> servers;
  servers.leader_first = (int)s.Draw(1);
  if (!MakeKeyword<K>(p, recs, &servers)) { s.Label("records do not fit"); return; }
  // The client is built from what the server publishes.
  const auto& pub = servers.leader->GetPublicParams();
  REQUIRE(pub.SerializeAsString() == K::Public(p).SerializeAsString()) << "public parameters differ from those given";
  auto client = Must(K::Client::Create(pub, Encrypt), "client");
  int rounds = (int)s.Int(1, 3);
  for (int r = 0; r < rounds; r++) {
    int k = (int)(s.Chance(1, 20) ? 0 : s.Small(1, max_queries));
    std::vector<std::string> q;
    for (int i = 0; i < k; i++) q.push_back(DrawQuery(s, recs));
    Retrieve<K>(s, *client, servers, p, recs, q, pad);
  }
}

template <typename K> void LookupCase(Src& s, bool pad) {
  pbt::SeedRand(s.Draw(~0ull));
  int n = (int)(s.Chance(1, 8) ? s.Small(0, 150) : s.Small(0, 25));
  Lookups<K>(s, pad, DrawRecords(s, n), 8);
}
template <typename K> void LargeCase(Src& s, bool pad) {
  pbt::SeedRand(s.Draw(~0ull));
  switch (s.Draw(2)) {
    case 0: return Lookups<K>(s, pad, DrawLargeRecords(s, (int)s.Small(150, 4000), 12, 12), 4);
    case 1: return Lookups<K>(s, pad, DrawLargeRecords(s, (int)s.Small(1, 30), 3000, 3000), 4);
    default: return Lookups<K>(s, pad, DrawRecords(s, (int)s.Small(1, 60)), 40);
  }
}

// A client or a server with another hash seed is told so.
template <typename K> void SeedCase(Src& s) {
  pbt::SeedRand(s.Draw(~0ull));
  int n = (int)s.Small(1, 8);
  auto recs = DrawRecords(s, n);
  for (auto& r : recs) r.second += "x";
  auto p = DrawParams<K>(s, n, 3), other = p;
  std::string seed = p.hash_family_config().seed();
  switch (s.Draw(3)) {
    case 0: seed += std::string(1, (char)s.Draw(255)); break;
    case 1: seed[s.Draw(seed.size() - 1)] ^= (char)(1u << s.Draw(7)); break;
    case 2: seed = "other" + std::to_string(s.Draw(9)); break;
    default: seed = s.Blob(16); if (seed == p.hash_family_config().seed()) seed += "!";
  }
  other.mutable_hash_family_config()->set_seed(seed);
  int who = (int)s.Draw(3);  // who disagrees: client, leader (or one plain server), helper (or the other), nobody
  NOTE(s, "seeds " << pbt::Hex(p.hash_family_config().seed()) << " / " << pbt::Hex(seed) << " odd one: " << who);
  Servers<typename K::Server> servers, odd;
  if (!MakeKeyword<K>(p, recs, &servers) || !MakeKeyword<K>(other, recs, &odd)) { s.Label("records do not fit"); return; }
  auto client = Must(K::Client::Create(K::Public(who == 0 ? other : p), Encrypt), "client");
  std::vector<std::string> q = {DrawQuery(s, recs)};
  auto expect = [&](const absl::Status& st, const char* what, bool wrong) {
    if (wrong) REQUIRE(!st.ok() && st.code() == absl::StatusCode::kInvalidArgument) << what << " answered in spite of another seed: " << st;
    else REQUIRE(st.ok()) << what << ": " << st;
  };
  if (s.Bool()) {
    auto r = Must(client->CreatePlainRequests(q), "request");
    auto* s0 = (who == 1 ? odd : servers).plain[0].get();
    auto* s1 = (who == 2 ? odd : servers).plain[1].get();
    expect(s0->HandleRequest(Plain(std::get<0>(r))).status(), "first server", who == 0 || who == 1);
    expect(s1->HandleRequest(Plain(std::get<1>(r).plain_request())).status(), "second server", who == 0 || who == 2);
  } else {
    if (who == 2) servers.helper = std::move(odd.helper);
    if (who == 1) servers.leader = Must(K::Server::CreateLeader(other, Must(KeywordDb<K>(other, recs), "Build"), Sender(&servers)), "CreateLeader");
    auto r = Must(client->CreateRequest(q), "request");
    expect(servers.leader->HandleRequest(r.first).status(), "leader and helper", who != 3);
  }
  if (who == 3) {
    // The fingerprint is optional, and any other one is a disagreement.
    auto r = Must(client->CreatePlainRequests(q), "request");
    auto plain = std::get<0>(r);
    const auto good = plain.seed_fingerprint();
    auto* server = servers.plain[s.Bool()].get();
    plain.clear_seed_fingerprint();
    expect(server->HandleRequest(Plain(plain)).status(), "request without fingerprint", false);
    for (int i = 0; i < 3; i++) {
      uint32_t f = i == 0 ? (uint32_t)s.Int(1, 3) : i == 1 ? (uint32_t)good ^ (1u << s.Int(0, 31)) : (uint32_t)s.Edge(0xffffffff);
      plain.set_seed_fingerprint(f);
      expect(server->HandleRequest(Plain(plain)).status(), "request with another fingerprint", f != 0 && f != (uint32_t)good);
    }
  }
  if (s.Chance(1, 10)) {
    // Generated seeds: each of their bits takes both values.
    D::PirConfig c;
    if constexpr (std::is_same<K, CuckooKind>::value) {
      c.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(3);
      c.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_hash_family(D::HashFamilyConfig::HASH_FAMILY_SHA256);
    } else {
      c.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(3);
      c.mutable_simple_hashing_sparse_dpf_pir_config()->set_hash_family(D::HashFamilyConfig::HASH_FAMILY_SHA256);
    }
    std::string all(16, '\xff'), any(16, '\0');
    for (int i = 0; i < 80; i++) {
      const std::string seed = Must(K::Server::GenerateParams(c), "GenerateParams").hash_family_config().seed();
      REQUIRE(seed.size() == 16);
      for (int b = 0; b < 16; b++) { all[b] &= seed[b]; any[b] |= seed[b]; }
    }
    REQUIRE(all == std::string(16, '\0') && any == std::string(16, '\xff')) << "bits that never change in 80 generated seeds: " << pbt::Hex(all) << " " << pbt::Hex(any);
  }
  s.NonTrivial(true);
}
}  // namespace keyword
#endif
