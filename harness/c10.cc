// C10: the fixed-key hash computes AES(k, sigma(x)) ^ sigma(x) block by block,
// for any batch, any overlap of input and output, any object history.
// LIBS: core
#include <algorithm>
#include <thread>

#include "absl/numeric/int128.h"
#include "dpf/aes_128_fixed_key_hash.h"
#include "pbt.h"
#include "ref_aes.h"
using pbt::Src;
using pbt::u128;
using distributed_point_functions::Aes128FixedKeyHash;

const char* const pbt::kRule =
    "A case draws a key, a batch of 0-700 blocks (uniform, edge-valued or repeated), a placement of input and output "
    "(disjoint, identical, or overlapping at any distance in either direction) and an object history (moved, used "
    "before, shared by threads) and compares every output block with an independent AES-128 model. Non-trivial: at "
    "least two distinct input blocks.";
const std::vector<std::string> pbt::kAssumptions = {"the reference AES is checked against FIPS-197 at start"};

static absl::uint128 A(u128 x) { return absl::MakeUint128((uint64_t)(x >> 64), (uint64_t)x); }
static u128 U(absl::uint128 x) { return ((u128)absl::Uint128High64(x) << 64) | absl::Uint128Low64(x); }

static std::vector<absl::uint128> DrawBlocks(Src& s, size_t n) {
  std::vector<absl::uint128> v(n);
  int style = (int)s.Draw(3);
  pbt::Rng r{s.Draw(~0ull)};
  for (size_t i = 0; i < n; i++) {
    u128 x = ((u128)r.Next() << 64) | r.Next();
    switch (style) {
      case 0: break;
      case 1: x = i < 40 ? s.Edge128(~(u128)0) : x & (((u128)1 << (r.Next() % 128)) - 1); break;
      case 2: x = (u128)1 << (i % 128); break;
      default: x = i % 3 ? i : x;
    }
    v[i] = A(x);
  }
  return v;
}
static size_t DrawSize(Src& s) {
  switch (s.Draw(3)) {
    case 0: return s.Draw(9);
    case 1: return 64 * s.Int(1, 4) + s.Int(-2, 2);
    default: return s.Chance(1, 200) ? s.Draw(60000) : s.Draw(700);
  }
}

CASE(against_reference, 40000, 1000000) {
  REQUIRE(ref::AesSelfTest());
  u128 key = s.Edge128(~(u128)0);
  auto h = Aes128FixedKeyHash::Create(A(key));
  REQUIRE(h.ok());
  REQUIRE(U(h->key()) == key);
  ref::Aes128 aes = ref::Aes128::FromInt(key);
  Aes128FixedKeyHash obj = std::move(*h);
  if (s.Chance(1, 4)) {
    // The object survives moves, and assignment over one with another key.
    auto other = Aes128FixedKeyHash::Create(A(s.Edge128(~(u128)0)));
    REQUIRE(other.ok());
    Aes128FixedKeyHash o2 = std::move(*other);
    o2 = std::move(obj);
    obj = std::move(o2);
    REQUIRE(U(obj.key()) == key);
  }
  int rounds = (int)s.Small(1, 3);
  for (int k = 0; k < rounds; k++) {
    size_t n = DrawSize(s);
    std::vector<absl::uint128> in = DrawBlocks(s, n), out(n);
    std::vector<absl::uint128> copy = in;
    // Alignment: place the output at an odd offset of a byte buffer's blocks.
    auto st = obj.Evaluate(in, absl::MakeSpan(out));
    REQUIRE(st.ok()) << st;
    REQUIRE(in == copy) << "input changed";
    for (size_t i = 0; i < n; i++)
      REQUIRE(U(out[i]) == ref::Mmo(aes, U(in[i]))) << "block " << i << " of " << n << ", key " << pbt::Str128(key) << " input " << pbt::Str128(U(in[i]));
    NOTE(s, "key=" << pbt::Str128(key) << " blocks=" << n);
    s.NonTrivial(n > 1 && in[0] != in[1]);
    if (n > 0 && s.Chance(1, 3)) {
      // The same buffers with one block changed.
      size_t at = s.Draw(n - 1);
      in[at] ^= A((u128)1 << s.Int(0, 127));
      st = obj.Evaluate(in, absl::MakeSpan(out));
      REQUIRE(st.ok()) << st;
      for (size_t i = 0; i < n; i++)
        REQUIRE(U(out[i]) == ref::Mmo(aes, U(in[i]))) << "block " << i << " of " << n << " after block " << at << " was changed in place";
    }
  }
}

CASE(overlap, 40000, 800000) {
  u128 key = s.Uni128();
  auto h = Aes128FixedKeyHash::Create(A(key));
  REQUIRE(h.ok());
  ref::Aes128 aes = ref::Aes128::FromInt(key);
  size_t n = std::max<size_t>(1, DrawSize(s));
  int64_t d = s.Bool() ? s.Int(-(int64_t)n, (int64_t)n) : s.Int(-3, 3);
  if (d > (int64_t)n) d = n;
  if (d < -(int64_t)n) d = -(int64_t)n;
  std::vector<absl::uint128> buf = DrawBlocks(s, n + (size_t)std::abs(d));
  absl::uint128* in = buf.data() + (d < 0 ? -d : 0);
  absl::uint128* out = in + d;
  std::vector<absl::uint128> orig(in, in + n), whole = buf;
  NOTE(s, "blocks=" << n << " out-in=" << d);
  auto st = h->Evaluate(absl::MakeConstSpan(in, n), absl::MakeSpan(out, n));
  REQUIRE(st.ok()) << st;
  for (size_t i = 0; i < n; i++)
    REQUIRE(U(out[i]) == ref::Mmo(aes, U(orig[i]))) << "block " << i << " of " << n << " with output " << d << " blocks after input";
  for (size_t i = 0; i < buf.size(); i++)
    if (&buf[i] < out || &buf[i] >= out + n) REQUIRE(buf[i] == whole[i]) << "wrote outside the output";
  s.NonTrivial(n > 1);
  s.Label(d == 0 ? "in place" : d > 0 ? "output after input" : "output before input");
}

CASE(sizes, 4000, 40000) {
  auto h = Aes128FixedKeyHash::Create(A(s.Uni128()));
  REQUIRE(h.ok());
  size_t n = DrawSize(s), m = s.Bool() ? DrawSize(s) : n + s.Int(0, 2) - (n ? 1 : 0);
  std::vector<absl::uint128> in = DrawBlocks(s, n), out(m);
  auto st = h->Evaluate(in, absl::MakeSpan(out));
  REQUIRE(st.ok() == (n == m)) << n << " inputs, " << m << " outputs: " << st;
  if (n != m) REQUIRE(st.code() == absl::StatusCode::kInvalidArgument) << st;
  s.NonTrivial(n != m);
}

// One object, several threads.
CASE(threads, 1500, 20000) {
  u128 key = s.Uni128();
  auto h = Aes128FixedKeyHash::Create(A(key));
  REQUIRE(h.ok());
  ref::Aes128 aes = ref::Aes128::FromInt(key);
  int t = (int)s.Int(2, 6);
  std::vector<std::vector<absl::uint128>> in, out(t);
  for (int i = 0; i < t; i++) { in.push_back(DrawBlocks(s, s.Int(1, 300))); out[i].resize(in[i].size()); }
  std::vector<std::thread> th;
  std::vector<char> bad(t, 0);
  for (int i = 0; i < t; i++)
    th.emplace_back([&, i] {
      for (int k = 0; k < 20; k++) bad[i] |= !h->Evaluate(in[i], absl::MakeSpan(out[i])).ok();
    });
  for (auto& x : th) x.join();
  for (int i = 0; i < t; i++) {
    REQUIRE(!bad[i]);
    for (size_t k = 0; k < in[i].size(); k++) REQUIRE(U(out[i][k]) == ref::Mmo(aes, U(in[i][k]))) << "thread " << i << " block " << k;
  }
  s.NonTrivial(true);
}

// Two objects or more, one after the other or side by side, with related keys:
// nothing of one shows in another.
CASE(related_keys, 20000, 500000) {
  std::vector<u128> keys = {s.Bool() ? s.Uni128() : s.Edge128(~(u128)0)};
  int n = (int)s.Int(2, 5);
  for (int i = 1; i < n; i++) {
    u128 k = keys[s.Draw(keys.size() - 1)];
    switch (s.Draw(5)) {
      case 0: k ^= (u128)1 << s.Draw(127); break;
      case 1: k ^= (u128)s.Draw(~0ull) << 64; break;
      case 2: k ^= (u128)s.Draw(~0ull); break;
      case 3: k = k << 64 | k >> 64; break;
      case 4: break;
      default: k = s.Uni128();
    }
    keys.push_back(k);
  }
  std::vector<std::unique_ptr<Aes128FixedKeyHash>> h(n);
  bool keep = s.Bool();
  int steps = (int)s.Int(2, 10);
  for (int i = 0; i < steps; i++) {
    int w = (int)s.Draw(n - 1);
    if (!h[w]) {
      auto r = Aes128FixedKeyHash::Create(A(keys[w]));
      REQUIRE(r.ok());
      h[w].reset(new Aes128FixedKeyHash(std::move(*r)));
    }
    std::vector<absl::uint128> in = DrawBlocks(s, s.Int(1, 70)), out(in.size());
    NOTE(s, "key " << pbt::Str128(keys[w]) << " hashes " << in.size());
    REQUIRE(h[w]->Evaluate(in, absl::MakeSpan(out)).ok());
    ref::Aes128 aes = ref::Aes128::FromInt(keys[w]);
    for (size_t k = 0; k < in.size(); k++) REQUIRE(U(out[k]) == ref::Mmo(aes, U(in[k]))) << "step " << i << ", key " << w << ", block " << k << " of " << in.size();
    if (!keep) h[w].reset();
    s.NonTrivial(w > 0);
  }
}

// More than 2^31 bytes in one call, in place.
HUGE_CASE(huge, 1, 3) {
  u128 key = s.Uni128();
  auto h = Aes128FixedKeyHash::Create(A(key));
  REQUIRE(h.ok());
  ref::Aes128 aes = ref::Aes128::FromInt(key);
  uint64_t n = s.Pick<uint64_t>({1ull << 27, (1ull << 27) + (1 << 25)}) + s.Draw(70), salt = s.Draw(~0ull);
  std::vector<absl::uint128> v(n);
  auto at = [&](uint64_t i) { return (u128)pbt::WordAt(salt, i) << 64 | i; };
  for (uint64_t i = 0; i < n; i++) v[i] = A(at(i));
  NOTE(s, n << " blocks in place");
  auto st = h->Evaluate(v, absl::MakeSpan(v));
  REQUIRE(st.ok()) << st;
  for (uint64_t i : pbt::Positions(s, n, 200000)) REQUIRE(U(v[i]) == ref::Mmo(aes, at(i))) << "block " << i << " of " << n;
  s.NonTrivial();
}
