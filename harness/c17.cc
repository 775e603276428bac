// C17: the seeded generator outputs AES-128-CTR(seed, nonce), however split.
// LIBS: prng
#include <memory>
#include "gf2.h"
#include "pbt.h"
#include "pir/prng/aes_128_ctr_seeded_prng.h"
#include "ref_aes.h"
using pbt::Src;
using distributed_point_functions::Aes128CtrSeededPrng;

const char* const pbt::kRule =
    "A case draws seeds and nonces (uniform, and ending in runs of 0xff so that the counter carries), then a sequence "
    "of requests (0 to 5000 bytes, biased to sizes around multiples of 16) interleaved over up to four generators "
    "(equal or different seeds), and compares every output with an independent AES-CTR. Non-trivial: more than 16 "
    "bytes were compared over at least two requests.";
const std::vector<std::string> pbt::kAssumptions = {"the reference AES is checked against FIPS-197 vectors at start-up"};

struct Ctr {
  std::string key, ctr, buf;
  std::string Take(size_t n) {
    ref::Aes128 aes((const uint8_t*)key.data());
    while (buf.size() < n) {
      std::string blk(16, '\0');
      aes.Encrypt((const uint8_t*)ctr.data(), (uint8_t*)&blk[0]);
      buf += blk;
      for (int i = 15; i >= 0; i--) if (++ctr[i] != 0) break;
    }
    std::string r = buf.substr(0, n);
    buf.erase(0, n);
    return r;
  }
};

static std::string DrawKey(Src& s) {
  switch (s.Draw(3)) {
    case 0: return std::string(16, (char)s.Draw(255));
    case 1: { std::string b = s.Blob(16); int n = (int)s.Int(1, 16); for (int i = 16 - n; i < 16; i++) b[i] = '\xff'; if (s.Bool()) b[15] = (char)s.Int(0, 255); return b; }
    default: return s.Blob(16);
  }
}
static size_t DrawSize(Src& s) {
  switch (s.Draw(3)) {
    case 0: return s.Int(0, 40);
    case 1: return std::max<int64_t>(0, 16 * s.Int(0, 20) + s.Int(-2, 2));
    case 2: return 1;
    default: return s.Small(0, 5000);
  }
}

static const bool kSelf = ref::AesSelfTest();

CASE(stream, 60000, 1500000) {
  REQUIRE(kSelf) << "reference AES is wrong";
  int n = (int)s.Int(1, 4);
  std::vector<std::unique_ptr<Aes128CtrSeededPrng>> g;
  std::vector<Ctr> m;
  for (int i = 0; i < n; i++) {
    std::string seed, nonce;
    bool plain = s.Chance(1, 3);
    if (i > 0 && s.Bool()) { seed = m[0].key; nonce = s.Bool() ? m[0].ctr : DrawKey(s); plain = false; }
    else { seed = DrawKey(s); nonce = DrawKey(s); }
    if (plain) nonce = std::string(16, '\0');
    NOTE(s, "gen " << i << " seed " << pbt::Hex(seed) << " nonce " << (plain ? "none" : pbt::Hex(nonce)));
    auto r = plain ? Aes128CtrSeededPrng::Create(seed) : Aes128CtrSeededPrng::CreateWithNonce(seed, nonce);
    REQUIRE(r.ok()) << r.status();
    g.push_back(std::move(*r));
    m.push_back({seed, nonce, ""});
  }
  int steps = (int)s.Int(1, 12);
  size_t total = 0;
  for (int i = 0; i < steps; i++) {
    int w = (int)s.Draw(n - 1);
    size_t len = DrawSize(s);
    NOTE(s, "gen " << w << " takes " << len);
    std::string got = g[w]->GetRandomBytes(len), want = m[w].Take(len);
    REQUIRE(got.size() == len) << "asked for " << len << ", got " << got.size();
    size_t d = 0;
    while (d < len && got[d] == want[d]) d++;
    REQUIRE(d == len) << "request " << i << ": byte " << d << " of " << len << " differs from the AES-CTR stream";
    total += len;
  }
  s.NonTrivial(total > 16 && steps > 1);
}

CASE(splitting, 30000, 500000) {
  std::string seed = DrawKey(s), nonce = DrawKey(s);
  auto a = Aes128CtrSeededPrng::CreateWithNonce(seed, nonce), b = Aes128CtrSeededPrng::CreateWithNonce(seed, nonce);
  REQUIRE(a.ok() && b.ok());
  std::string pieces;
  int steps = (int)s.Int(1, 30);
  for (int i = 0; i < steps; i++) pieces += (*a)->GetRandomBytes(DrawSize(s));
  std::string whole = (*b)->GetRandomBytes(pieces.size());
  NOTE(s, "seed " << pbt::Hex(seed) << " nonce " << pbt::Hex(nonce) << " " << pieces.size() << " bytes in " << steps << " requests");
  REQUIRE(pieces == whole) << "split requests give another stream";
  s.NonTrivial(pieces.size() > 16 && steps > 1);
}

CASE(rejections, 20000, 200000) {
  auto size = [&] { return s.Bool() ? 16 : s.Pick<int>({0, 1, 8, 15, 17, 24, 32, 64}); };
  int a = size(), b = size();
  std::string seed = s.Blob(a), nonce = s.Blob(b);
  NOTE(s, "seed of " << a << " bytes, nonce of " << b);
  auto c = Aes128CtrSeededPrng::Create(seed);
  REQUIRE(c.ok() == (a == 16)) << "seed of " << a << " bytes: " << c.status();
  if (!c.ok()) REQUIRE(c.status().code() == absl::StatusCode::kInvalidArgument) << c.status();
  auto d = Aes128CtrSeededPrng::CreateWithNonce(seed, nonce);
  REQUIRE(d.ok() == (a == 16 && b == 16)) << "seed of " << a << " bytes, nonce of " << b << ": " << d.status();
  if (!d.ok()) REQUIRE(d.status().code() == absl::StatusCode::kInvalidArgument) << d.status();
  s.NonTrivial(a != 16 || b != 16);
}

// Generated seeds are fresh and use all their bits.
CASE(fresh_seeds, 60, 1500) {
  pbt::SeedRand(s.Draw(~0ull));
  int k = (int)s.Int(1, 3);
  std::vector<gf2::Row> rows;
  for (int i = 0; i < 128 * k + 65; i++) {
    gf2::Bits b;
    for (int j = 0; j < k; j++) {
      uint64_t before = pbt::RandBytesUsed();
      auto r = Aes128CtrSeededPrng::GenerateSeed();
      REQUIRE(r.ok()) << r.status();
      REQUIRE(r->size() == Aes128CtrSeededPrng::SeedSize() && r->size() == 16) << r->size();
      REQUIRE(pbt::RandBytesUsed() - before >= 16) << "a seed took " << pbt::RandBytesUsed() - before << " bytes of system randomness";
      REQUIRE(Aes128CtrSeededPrng::Create(*r).ok());
      b.PushBytes(*r);
    }
    rows.push_back(b.w);
  }
  int rank = gf2::AffineRank(rows);
  NOTE(s, k << " seeds jointly, rank " << rank);
  REQUIRE(rank == 128 * k) << "the bits of " << k << " successive seeds span only " << rank << " dimensions";
  s.NonTrivial();
}

// Long streams: many blocks in few requests.
CASE(long_streams, 40, 800) {
  Ctr m{DrawKey(s), DrawKey(s), ""};
  auto g = Aes128CtrSeededPrng::CreateWithNonce(m.key, m.ctr);
  REQUIRE(g.ok());
  int steps = (int)s.Int(1, 4);
  for (int i = 0; i < steps; i++) {
    size_t len = s.Small(0, 3 << 20);
    NOTE(s, "takes " << len);
    REQUIRE((*g)->GetRandomBytes(len) == m.Take(len)) << "request " << i << " of " << len << " bytes differs";
    s.NonTrivial(len > 100000);
  }
}

// Requests beyond 2^31 and 2^32 bytes.
HUGE_CASE(huge, 1, 4) {
  std::string key = DrawKey(s), nonce = DrawKey(s);
  auto g = Aes128CtrSeededPrng::CreateWithNonce(key, nonce);
  REQUIRE(g.ok());
  ref::Aes128 aes((const uint8_t*)key.data());
  pbt::u128 base = 0;
  for (int i = 0; i < 16; i++) base = base << 8 | (uint8_t)nonce[i];
  auto at = [&](uint64_t pos) {
    pbt::u128 c = base + pos / 16;
    uint8_t blk[16], out[16];
    for (int i = 0; i < 16; i++) blk[i] = (uint8_t)(c >> (8 * (15 - i)));
    aes.Encrypt(blk, out);
    return (char)out[pos % 16];
  };
  uint64_t done = 0;
  for (int i = 0; i < 3; i++) {
    uint64_t n = i == 1 ? s.Pick<uint64_t>({1ull << 31, 1ull << 32, 5ull << 30}) + s.Draw(40) - 20 : s.Draw(100);
    NOTE(s, "takes " << n);
    std::string got = (*g)->GetRandomBytes(n);
    REQUIRE(got.size() == n) << "asked for " << n << ", got " << got.size();
    for (uint64_t p : pbt::Positions(s, n, 3000)) REQUIRE(got[p] == at(done + p)) << "byte " << p << " of " << n << " differs from the AES-CTR stream";
    done += n;
  }
  s.NonTrivial();
}
