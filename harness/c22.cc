// C22: retrieval by index returns exactly the requested values.
// LIBS: pir
#include "pbt.h"
#include "pirx.h"
#include "dpf/distributed_point_function.h"

using namespace pirx;

const char* const pbt::kRule =
    "A case draws a database of 1..2100 values (sizes around powers of two and multiples of 128; value lengths equal, mixed, "
    "or partly empty), two plain servers and a leader/helper pair, and batches of 1..12 indices (ends, repeats, block "
    "borders, random), asked over either route; or batches with an index out of range, empty batches, and clients of "
    "domains too large to hold a database. Non-trivial: more than one value and an index other than 0; for refusals, a "
    "batch that mixes valid and invalid indices.";
const std::vector<std::string> pbt::kAssumptions = {"the hybrid encryption of the helper's request is replaced by a reversible encoding"};

static int DrawCount(Src& s) {
  switch (s.Draw(4)) {
    case 0: return (int)s.Small(1, 40);
    case 1: return (int)s.Pick({1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130});
    case 2: return (int)s.Pick({191, 192, 193, 255, 256, 257, 383, 384, 385, 511, 512, 513, 639, 640, 641, 1023, 1024, 1025});
    case 3: return (int)s.Int(1, 600);
    default: return s.Chance(1, 6) ? (int)s.Pick({2047, 2048, 2049, 1280, 1281}) : (int)s.Int(1, 200);
  }
}
static std::vector<std::string> DrawValues(Src& s, int n, size_t max_len) {
  int mode = (int)s.Draw(4);
  size_t len = (size_t)s.Small(1, max_len);
  uint64_t salt = s.Draw(~0ull);
  std::vector<std::string> v;
  pbt::Rng r{salt};
  for (int i = 0; i < n; i++) {
    size_t l = mode == 0 ? len : mode == 1 ? r.Next() % (len + 1) : mode == 2 ? (r.Next() % 4 ? 0 : len) : mode == 3 ? 1 + r.Next() % 40 : (size_t)8;
    if (mode == 4) { std::string x = "value" + std::to_string(i); v.push_back(x); continue; }
    v.push_back(Src::Expand(r.Next() | 1, l));
  }
  return v;
}
static int DrawIndex(Src& s, int n) {
  switch (s.Draw(4)) {
    case 0: return (int)s.Small(0, n - 1);
    case 1: return n - 1 - (int)s.Draw(std::min(n - 1, 3));
    case 2: { int b = (int)s.Draw((n - 1) / 128); return std::min(n - 1, b * 128 + (int)s.Pick({0, 1, 63, 64, 126, 127})); }
    default: return (int)s.Draw(n - 1);
  }
}
static std::unique_ptr<D::DenseDpfPirClient> Client(int64_t n) {
  return Must(D::DenseDpfPirClient::Create(DenseConfig(n), Encrypt), "client");
}

static void ByIndex(Src& s, int n, size_t max_len, int max_queries) {
  pbt::SeedRand(s.Draw(~0ull));
  auto values = DrawValues(s, n, max_len);
  size_t max = 0;
  for (auto& v : values) max = std::max(max, v.size());
  Servers<D::DenseDpfPirServer> servers;
  servers.leader_first = (int)s.Draw(1);
  MakeDense(values, &servers);
  auto client = Client(n);
  int rounds = (int)s.Int(1, max_queries > 12 ? 1 : 4);
  for (int r = 0; r < rounds; r++) {
    int k = (int)s.Small(1, max_queries), route = (int)s.Draw(1);
    std::vector<int> q;
    for (int i = 0; i < k; i++) q.push_back(DrawIndex(s, n));
    NOTE(s, n << " values of up to " << max << " bytes, " << (route ? "two plain servers" : "leader and helper") << ", indices " << [&] { std::string t; for (int i : q) t += std::to_string(i) + " "; return t; }());
    auto a = Ask(s, *client, servers, q, route, k);
    if (max == 0) { REQUIRE(!a.ok() && IsNoBytes(a.status())) << a.status(); return; }
    REQUIRE(a.ok()) << a.status();
    REQUIRE(a->size() == (size_t)k) << a->size() << " answers to " << k << " queries";
    for (int i = 0; i < k; i++) {
      std::string want = values[q[i]];
      want.resize(max, '\0');
      REQUIRE((*a)[i] == want) << "index " << q[i] << ": got " << pbt::Hex((*a)[i]) << ", expected " << pbt::Hex(want);
      s.NonTrivial(n > 1 && q[i] > 0);
    }
  }
}

CASE(by_index, 2500, 90000) { ByIndex(s, DrawCount(s), 70, 12); }
// Many records, long values, many queries at once.
CASE(large, 40, 1200) {
  switch (s.Draw(2)) {
    case 0: return ByIndex(s, (int)s.Small(2000, 60000), 20, 3);
    case 1: return ByIndex(s, (int)s.Small(1, 60), 100000, 3);
    default: return ByIndex(s, (int)s.Small(1, 2000), 40, 90);
  }
}

CASE(refused, 8000, 300000) {
  pbt::SeedRand(s.Draw(~0ull));
  int n = DrawCount(s);
  auto client = Client(n);
  int k = (int)s.Small(0, 5);
  std::vector<int> q;
  int bad = 0;
  for (int i = 0; i < k; i++) {
    int x = DrawIndex(s, n);
    if (s.Chance(1, 3)) {
      switch (s.Draw(4)) {
        case 0: x = n; break;
        case 1: x = -1 - (int)s.Small(0, 200); break;
        case 2: x = n + (int)s.Small(0, 300); break;
        case 3: x = (int)s.Pick<int64_t>({0x7fffffff, -0x7fffffff - 1}); break;
        default: x = (n + 127) / 128 * 128 + (int)s.Draw(3); if (x < n) x = n;
      }
    }
    if (x < 0 || x >= n) bad++;
    q.push_back(x);
  }
  NOTE(s, n << " values, indices " << [&] { std::string t; for (int i : q) t += std::to_string(i) + " "; return t; }());
  auto a = client->CreateRequest(q);
  auto b = client->CreatePlainRequests(q);
  if (bad) {
    REQUIRE(!a.ok() && !b.ok()) << "index out of range accepted";
    REQUIRE(a.status().code() == absl::StatusCode::kInvalidArgument && b.status().code() == absl::StatusCode::kInvalidArgument) << a.status();
  } else if (q.empty()) {
    // Refused by the client or by the servers, never answered.
    if (a.ok()) {
      Servers<D::DenseDpfPirServer> servers;
      MakeDense({"x", "y"}, &servers);
      auto r = servers.leader->HandleRequest(a->first);
      REQUIRE(!r.ok() && r.status().code() == absl::StatusCode::kInvalidArgument) << "empty batch answered: " << r.status();
    } else REQUIRE(a.status().code() == absl::StatusCode::kInvalidArgument) << a.status();
    s.Label("empty");
  } else REQUIRE(a.ok() && b.ok()) << a.status() << b.status();
  s.NonTrivial(bad > 0 && bad < k);
}

// Requests for databases too large to build here: the two keys must be shares
// of the selection bit of each index.
CASE(large_domains, 4000, 150000) {
  pbt::SeedRand(s.Draw(~0ull));
  int bits = (int)s.Int(10, 40);
  int64_t n = ((int64_t)1 << bits) + s.Int(-3, 3);
  if (s.Bool()) n = s.Int(1000, (int64_t)1 << 34);
  auto client = Client(n);
  int64_t top = std::min<int64_t>(n - 1, 0x7fffffff);
  std::vector<int> q;
  int k = (int)s.Small(1, 4);
  for (int i = 0; i < k; i++) q.push_back((int)(s.Bool() ? top - s.Small(0, 300) : s.Int(0, top)));
  NOTE(s, n << " values, indices " << [&] { std::string t; for (int i : q) t += std::to_string(i) + " "; return t; }());
  auto r = client->CreatePlainRequests(q);
  REQUIRE(r.ok()) << r.status();
  D::DpfParameters p;
  int log = 0;
  while (log < 62 && ((int64_t)1 << log) < n) log++;
  p.set_log_domain_size(log);
  p.mutable_value_type()->mutable_xor_wrapper()->set_bitsize(128);
  auto dpf = Must(D::DistributedPointFunction::Create(p), "dpf");
  auto& [leader, helper, state] = *r;
  REQUIRE(leader.dpf_key_size() == k && helper.plain_request().dpf_key_size() == k);
  typedef D::XorWrapper<absl::uint128> X;
  for (int i = 0; i < k; i++) {
    std::vector<absl::uint128> at;
    std::vector<int64_t> blocks = {q[i] / 128, 0, q[i] / 128 + 1, (q[i] / 128) ^ 1, q[i] % 128};
    for (int64_t b : blocks) at.push_back(absl::uint128((uint64_t)(b & (((int64_t)1 << log) - 1))));
    auto a = dpf->EvaluateAt<X>(leader.dpf_key(i), 0, at), b = dpf->EvaluateAt<X>(helper.plain_request().dpf_key(i), 0, at);
    REQUIRE(a.ok() && b.ok()) << a.status() << " " << b.status();
    for (size_t j = 0; j < at.size(); j++) {
      absl::uint128 got = ((*a)[j] + (*b)[j]).value();
      absl::uint128 want = at[j] == absl::uint128(q[i] / 128) ? absl::uint128(1) << (q[i] % 128) : absl::uint128(0);
      REQUIRE(got == want) << "index " << q[i] << ": selection block " << at[j] << " is wrong";
    }
  }
  s.NonTrivial(n > 0x7fffffff || top > 1000);
}
