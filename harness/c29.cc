// C29: the support library for building retrieval tests does what it says.
// LIBS: pirtest
#include <limits>
#include "pbt.h"
#include "pirx.h"
#include "pir/testing/encrypt_decrypt.h"
#include "pir/testing/mock_pir_database.h"
#include "pir/testing/pir_selection_bits.h"
#include "pir/testing/request_generator.h"

using namespace pirx;
namespace T = D::pir_testing;

// The hybrid encryption with embedded test keys needs a library that is not
// installed; these stand in for it.
namespace {
struct FakeEncrypt : crypto::tink::HybridEncrypt {
  absl::StatusOr<std::string> Encrypt(absl::string_view p, absl::string_view i) const override { return pirx::Encrypt(p, i); }
};
struct FakeDecrypt : crypto::tink::HybridDecrypt {
  absl::StatusOr<std::string> Decrypt(absl::string_view p, absl::string_view i) const override { return pirx::Decrypt(p, i); }
};
}  // namespace
namespace distributed_point_functions {
namespace pir_testing {
absl::StatusOr<std::unique_ptr<crypto::tink::HybridEncrypt>> CreateFakeHybridEncrypt() { return {std::make_unique<FakeEncrypt>()}; }
absl::StatusOr<std::unique_ptr<crypto::tink::HybridDecrypt>> CreateFakeHybridDecrypt() { return {std::make_unique<FakeDecrypt>()}; }
}  // namespace pir_testing
}  // namespace distributed_point_functions

const char* const pbt::kRule =
    "A case draws a database size of 1..2100 and a batch of up to 8 indices (some out of range) and asks the request generator "
    "for plain and leader requests, which are then answered by servers over that database; or selections and values of mixed "
    "lengths for the reference inner product and the packing of selections into blocks of 8 to 128 bits, judged against the "
    "library's inner product and bit by bit; or counts and sizes for the record generators. Non-trivial: an index other than "
    "0 in a database of more than one block, at least two values of different lengths, more than one block, or more than one record.";
const std::vector<std::string> pbt::kAssumptions = {"the hybrid encryption of the helper's request is replaced by a reversible encoding"};

static std::string Show(const std::vector<int>& q) { std::string t; for (int i : q) t += std::to_string(i) + " "; return t; }
static bool Refused(const absl::Status& st) { return st.code() == absl::StatusCode::kInvalidArgument; }

CASE(requests, 2500, 80000) {
  pbt::SeedRand(s.Draw(~0ull));
  int n = s.Bool() ? (int)s.Small(1, 2100) : (int)s.Pick({1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025});
  std::string info = s.Bool() ? "DpfPirServer" : s.Str(12);
  auto g = T::RequestGenerator::Create(n, info);
  REQUIRE(g.ok()) << g.status();
  const std::string seed((*g)->otp_seed());
  REQUIRE(seed.size() == 16);
  std::vector<int> q;
  int k = (int)(s.Chance(1, 10) ? s.Small(9, 150) : s.Small(0, 8)), bad = 0;
  for (int i = 0; i < k; i++) {
    int x = s.Chance(1, 3) ? n - 1 - (int)s.Draw(std::min(n - 1, 3)) : (int)s.Draw(n - 1);
    if (k > 8 ? (i == k - 1 && s.Bool()) : s.Chance(1, 12)) x = (int)s.Pick<int64_t>({n, n + 1, -1, -128, 0x7fffffff, -0x7fffffff - 1, (n + 127) / 128 * 128});
    bad += x < 0 || x >= n;
    q.push_back(x);
  }
  NOTE(s, "database of " << n << ", info " << pbt::Hex(info) << ", indices " << Show(q));
  s.NonTrivial(n > 128 && k > 0 && q.back() > 0);
  auto p = (*g)->CreateDpfPirPlainRequests(q);
  auto l = (*g)->CreateDpfPirLeaderRequest(q);
  REQUIRE(p.ok() == !bad && l.ok() == !bad) << p.status() << " / " << l.status();
  if (bad) { REQUIRE(Refused(p.status()) && Refused(l.status())) << p.status() << " / " << l.status(); s.Label("refused"); return; }
  // The leader request.
  auto sealed = pirx::Decrypt(l->encrypted_helper_request().encrypted_request(), info);
  REQUIRE(sealed.ok()) << "the helper's request does not open under the context info";
  D::DpfPirRequest::HelperRequest h;
  REQUIRE(h.ParseFromString(*sealed));
  REQUIRE(h.one_time_pad_seed() == seed && (*g)->otp_seed() == seed) << "the helper's request carries another seed";
  if (k == 0) { REQUIRE(p->first.dpf_key_size() == 0 && p->second.dpf_key_size() == 0 && l->plain_request().dpf_key_size() == 0 && h.plain_request().dpf_key_size() == 0); return; }
  // Both, answered.
  std::vector<std::string> values;
  uint64_t salt = s.Draw(~0ull) | 1;
  size_t len = (size_t)s.Small(1, 20);
  for (int i = 0; i < n; i++) values.push_back(Src::Expand(pbt::Mix(salt + i) | 1, len));
  auto server = Must(D::DenseDpfPirServer::CreatePlain(DenseConfig(n), DenseDb(values)), "server");
  for (int which = 0; which < 2; which++) {
    const auto& a = which ? l->plain_request() : p->first;
    const auto& b = which ? h.plain_request() : p->second;
    auto x = server->HandleRequest(Plain(a)), y = server->HandleRequest(Plain(b));
    REQUIRE(x.ok() && y.ok()) << x.status() << " / " << y.status();
    const auto &u = x->dpf_pir_response(), &v = y->dpf_pir_response();
    REQUIRE(u.masked_response_size() == k && v.masked_response_size() == k) << u.masked_response_size() << " and " << v.masked_response_size() << " answers to " << k << " queries";
    for (int i = 0; i < k; i++) {
      std::string got = u.masked_response(i);
      REQUIRE(got.size() == v.masked_response(i).size());
      for (size_t j = 0; j < got.size(); j++) got[j] ^= v.masked_response(i)[j];
      REQUIRE(got == values[q[i]]) << (which ? "leader" : "plain") << " request, index " << q[i] << ": got " << pbt::Hex(got) << ", expected " << pbt::Hex(values[q[i]]);
    }
  }
  auto other = T::RequestGenerator::Create(n, info);
  REQUIRE(other.ok() && (*other)->otp_seed() != seed) << "two generators share a seed";
}

CASE(sizes_refused, 20000, 400000) {
  int n = (int)s.Pick<int64_t>({0, -1, -128, -0x7fffffff - 1});
  auto g = T::RequestGenerator::Create(n, "x");
  NOTE(s, "database of " << n);
  REQUIRE(!g.ok() && Refused(g.status())) << g.status();
}

template <typename W> void Packing(Src& s, const char* name) {
  typedef D::XorWrapper<W> B;
  constexpr int kBits = 8 * sizeof(W);
  int n = s.Bool() ? (int)s.Small(0, 700) : (int)s.Small(0, 6) * kBits + (int)s.Int(-1, 1);
  if (n < 0) n = 0;
  std::string bits = s.Blob(n / 8 + 1);
  std::vector<bool> sel;
  for (int i = 0; i < n; i++) sel.push_back(bits[i / 8] >> (i % 8) & 1);
  NOTE(s, n << " selections into blocks of " << kBits);
  s.Label(name);
  s.NonTrivial(n > kBits);
  auto p = T::PackSelectionBits<B>(sel);
  int want = (n + kBits - 1) / kBits;
  REQUIRE((int)p.size() == want) << p.size() << " blocks, expected " << want;
  for (int i = 0; i < want * kBits; i++) {
    int bit = (int)((absl::uint128(p[i / kBits].value()) >> (i % kBits)) & 1);
    REQUIRE(bit == (i < n ? (int)sel[i] : 0)) << "bit " << i << " of " << n << " is " << bit;
  }
  auto r = T::GenerateRandomPackedSelectionBits<B>(n);
  REQUIRE((int)r.size() == want) << r.size() << " random blocks, expected " << want;
}
CASE(packing, 60000, 1200000) {
  switch (s.Draw(4)) {
    case 0: return Packing<absl::uint128>(s, "128");
    case 1: return Packing<uint64_t>(s, "64");
    case 2: return Packing<uint32_t>(s, "32");
    case 3: return Packing<uint16_t>(s, "16");
    default: return Packing<uint8_t>(s, "8");
  }
}
// Random selections take both values at every position of a block.
CASE(random_selections, 300, 6000) {
  int n = (int)s.Int(128 * 64, 128 * 80);
  auto r = T::GenerateRandomPackedSelectionBits<D::XorWrapper<absl::uint128>>(n);
  NOTE(s, n << " random selections");
  absl::uint128 any = 0, all = ~absl::uint128(0);
  for (auto& b : r) { any |= b.value(); all &= b.value(); }
  REQUIRE(any == ~absl::uint128(0) && all == 0) << "some selection has the same value in all of " << r.size() << " blocks";
  s.NonTrivial();
}

CASE(inner_product, 40000, 900000) {
  int n = s.Bool() ? (int)s.Small(0, 40) : (int)s.Small(0, 300);
  int m = s.Chance(1, 8) ? (int)s.Small(0, 40) : n;
  std::string bits = s.Blob(m / 8 + 1);
  std::vector<bool> sel;
  for (int i = 0; i < m; i++) sel.push_back(bits[i / 8] >> (i % 8) & 1);
  size_t len = (size_t)s.Small(0, 30);
  bool mixed = s.Bool();
  std::vector<std::string> values;
  uint64_t salt = s.Draw(~0ull);
  size_t max = 0, min = 1000;
  for (int i = 0; i < n; i++) {
    uint64_t h = pbt::Mix(salt + i);
    values.push_back(Src::Expand(h | 1, mixed ? h / 7 % (len + 1) : len));
    max = std::max(max, values.back().size()), min = std::min(min, values.back().size());
  }
  NOTE(s, n << " values of " << min << ".." << max << " bytes, " << m << " selections");
  auto got = T::InnerProductWithUnpacked(sel, values);
  if (m != n) { REQUIRE(!got.ok() && Refused(got.status())) << "mismatched sizes accepted"; s.Label("refused"); return; }
  REQUIRE(got.ok()) << got.status();
  std::string want(max, '\0');
  for (int i = 0; i < n; i++)
    if (sel[i]) for (size_t j = 0; j < values[i].size(); j++) want[j] ^= values[i][j];
  REQUIRE(*got == want) << "got " << pbt::Hex(*got) << ", expected " << pbt::Hex(want);
  s.NonTrivial(n > 1 && mixed && max > min);
  // The library's own product over the packed selections is the same.
  if (n == 0 || max == 0) return;
  auto db = DenseDb(values);
  std::vector<std::vector<D::XorWrapper<absl::uint128>>> packed = {T::PackSelectionBits<D::XorWrapper<absl::uint128>>(sel)};
  auto lib = db->InnerProductWith(packed);
  REQUIRE(lib.ok() && lib->size() == 1) << lib.status();
  REQUIRE((*lib)[0] == want) << "the database's inner product is " << pbt::Hex((*lib)[0]) << ", expected " << pbt::Hex(want);
}

CASE(records, 40000, 800000) {
  pbt::SeedRand(s.Draw(~0ull) | 1);
  int n = s.Chance(1, 10) ? -(int)s.Small(1, 5) : (int)s.Small(0, 60);
  int kind = (int)s.Draw(3);
  auto check = [&](const absl::StatusOr<std::vector<std::string>>& r, bool ok, auto size_ok) {
    if (!ok) { REQUIRE(!r.ok() && Refused(r.status())) << "accepted or " << r.status(); s.Label("refused"); return; }
    REQUIRE(r.ok()) << r.status();
    REQUIRE((int)r->size() == n) << r->size() << " records, expected " << n;
    size_t zeros = 0, total = 0;
    for (int i = 0; i < n; i++) {
      REQUIRE(size_ok(i, (int)(*r)[i].size())) << "record " << i << " has " << (*r)[i].size() << " bytes";
      // A long record of zero bytes, or two equal ones, has not been drawn at random.
      for (char c : (*r)[i]) zeros += !c, total++;
      if ((*r)[i].size() >= 16) {
        REQUIRE((*r)[i].substr((*r)[i].size() - 8) != std::string(8, '\0')) << "record " << i << " ends in zero bytes";
        for (int j = 0; j < i; j++) REQUIRE((*r)[i] != (*r)[j]) << "records " << j << " and " << i << " are equal";
      }
    }
    REQUIRE(total < 400 || zeros * 8 < total) << zeros << " of " << total << " random bytes are zero";
    s.NonTrivial(n > 1);
  };
  int size = s.Chance(1, 10) ? -(int)s.Small(1, 9) : (int)s.Small(0, 80);
  switch (kind) {
    case 0: {
      std::string prefix = s.Str(10);
      NOTE(s, n << " counting strings with prefix " << pbt::Hex(prefix));
      auto r = T::GenerateCountingStrings(n, prefix);
      if (n < 0) { REQUIRE(!r.ok() && Refused(r.status())); return; }
      REQUIRE(r.ok() && (int)r->size() == n) << r.status();
      for (int i = 0; i < n; i++) REQUIRE((*r)[i] == prefix + std::to_string(i)) << "element " << i << " is " << (*r)[i];
      s.NonTrivial(n > 1);
      return;
    }
    case 1: {
      NOTE(s, n << " records of " << size << " bytes");
      return check(T::GenerateRandomStringsEqualSize(n, size), n >= 0 && size >= 0, [&](int, int x) { return x == size; });
    }
    case 2: {
      std::vector<int> sizes;
      bool ok = true;
      n = std::max(n, 0);
      for (int i = 0; i < n; i++) { sizes.push_back(s.Chance(1, 60) ? -1 : (int)s.Small(0, 80)); ok &= sizes.back() >= 0; }
      NOTE(s, "records of sizes " << Show(sizes));
      return check(T::GenerateRandomStrings(sizes), ok, [&](int i, int x) { return x == sizes[i]; });
    }
    default: {
      int diff = s.Chance(1, 10) ? -(int)s.Small(1, 9) : (int)s.Small(0, std::max(size, 1));
      if (size < 0 || diff < 0 || n < 0) {
        NOTE(s, n << " records of " << size << "+-" << diff << " bytes");
        return check(T::GenerateRandomStringsVariableSize(n, size, diff), false, [](int, int) { return true; });
      }
      if (diff > size) diff = size;
      NOTE(s, n << " records of " << size << "+-" << diff << " bytes");
      return check(T::GenerateRandomStringsVariableSize(n, size, diff), true, [&](int, int x) { return x >= size - diff && x <= size + diff; });
    }
  }
}
