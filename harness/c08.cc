// C08: output types form groups and are sampled as documented.
// LIBS: core
// SRCS: dpf_types.cc dpf_types_0.cc dpf_types_1.cc dpf_types_2.cc dpf_types_3.cc
#include <cmath>
#include "dpf/internal/value_type_helpers.h"
#include "dpf_types.h"
#include "pbt.h"
using namespace vt;
using pbt::Src;

const char* const pbt::kRule =
    "A case draws an output type (43 shapes) and three elements with weight on the ends of the range and compares every "
    "operator with exact arithmetic in the documented group; or draws bytes, a modulus and a count and compares samples "
    "and byte/security accounting with an exact model. Non-trivial: both operands differ and neither is zero; for "
    "samples, more than one sample; for accounting, within reach of the acceptance border.";
const std::vector<std::string> pbt::kAssumptions = {"security accounting is not judged within 1e-6 bits of the border"};

static Leaves Neg(const TypeOps& t, const Leaves& a) {
  Leaves r(a.size());
  for (size_t i = 0; i < a.size(); i++) r[i] = NegLeaf(t.leaves[i], a[i]);
  return r;
}

CASE(group, 400000, 8000000) {
  const TypeOps& t = s.Pick(Types());
  s.Label("type " + t.name.substr(0, 48));
  Leaves a = DrawValue(s, t), b = s.Chance(1, 8) ? a : DrawValue(s, t);
  if (s.Chance(1, 6)) b = Neg(t, a);
  else if (s.Chance(1, 8)) { b = a; size_t i = s.Draw(b.size() - 1); b[i] = s.Edge128(MaxOf(t.leaves[i])); }
  NOTE(s, t.name << " a=" << Show(a) << " b=" << Show(b));
  LibOps r;
  t.lib_ops(a, b, &r);
  Leaves sum = Add(t.leaves, a, b), diff = Add(t.leaves, a, Neg(t, b));
  REQUIRE(r.plus == sum) << "a+b = " << Show(r.plus) << ", expected " << Show(sum);
  REQUIRE(r.plus_eq == sum) << "a+=b gives " << Show(r.plus_eq) << ", expected " << Show(sum);
  REQUIRE(r.minus == diff) << "a-b = " << Show(r.minus) << ", expected " << Show(diff);
  REQUIRE(r.minus_eq == diff) << "a-=b gives " << Show(r.minus_eq) << ", expected " << Show(diff);
  REQUIRE(r.neg == Neg(t, a)) << "-a = " << Show(r.neg) << ", expected " << Show(Neg(t, a));
  REQUIRE(r.plus_self == Add(t.leaves, a, a)) << "a+=a gives " << Show(r.plus_self);
  REQUIRE(r.minus_self == Zero(t)) << "a-=a gives " << Show(r.minus_self);
  REQUIRE(r.twice == Add(t.leaves, sum, b)) << "(a+=b)+=b gives " << Show(r.twice);
  REQUIRE(r.zero == Zero(t)) << "the default element is " << Show(r.zero);
  REQUIRE(r.eq == (a == b)) << "a==b is " << r.eq;
  REQUIRE(r.ne == (a != b)) << "a!=b is " << r.ne;
  s.NonTrivial(a != b && a != Zero(t) && b != Zero(t));
}

// Constructing and assigning Z_N elements reduces; values stay below N.
template <typename M> void Reduce(Src& s, const char* name) {
  using B = typename M::Base;
  u128 n = U(absl::uint128(M::modulus()));
  u128 max = sizeof(B) == 16 ? ~(u128)0 : (((u128)1 << (8 * (sizeof(B) % 16))) - 1);
  u128 x = s.Bool() ? s.Edge128(max) : (n * s.Int(0, 3) + s.Int(-1, 1)) & max;
  NOTE(s, name << " from " << pbt::Str128(x));
  M m(static_cast<B>(A(x)));
  REQUIRE(U(absl::uint128(m.value())) == x % n) << "holds " << pbt::Str128(U(absl::uint128(m.value()))) << ", expected " << pbt::Str128(x % n);
  M k;
  k = static_cast<B>(A(x));
  REQUIRE(k == m) << "assignment and construction differ";
  s.NonTrivial(x >= n);
}
CASE(reduction, 60000, 800000) {
  switch (s.Draw(9)) {
    case 6: Reduce<Mod<absl::uint128, ~(unsigned __int128)0>>(s, "2^128-1"); break;
    case 7: Reduce<Mod<absl::uint128, ((unsigned __int128)1 << 127) + 1>>(s, "2^127+1"); break;
    case 8: Reduce<Mod<uint64_t, (1ull << 63) + 29>>(s, "2^63+29"); break;
    case 9: Reduce<Mod<unsigned __int128, ((unsigned __int128)1 << 64)>>(s, "2^64/128"); break;
    case 0: Reduce<Mod<uint32_t, 4294967291u>>(s, "2^32-5"); break;
    case 1: Reduce<Mod<uint64_t, 18446744073709551557ull>>(s, "2^64-59"); break;
    case 2: Reduce<Mod<uint8_t, 251>>(s, "251/8"); break;
    case 3: Reduce<Mod<uint32_t, 1>>(s, "1/32"); break;
    case 4: Reduce<Mod<absl::uint128, ((u128)1 << 80) - 65>>(s, "2^80-65"); break;
    default: Reduce<Mod<uint16_t, 1000>>(s, "1000/16"); break;
  }
}

// The operators for moduli over the whole range of each base integer, among
// them those whose sums and differences leave the base integer's range.
template <typename B, unsigned __int128 N> void Modular(Src& s) {
  using M = Mod<B, N>;
  auto u = [](const M& m) { return U(absl::uint128(m.value())); };
  auto el = [](u128 x) { return M(static_cast<B>(A(x))); };
  auto add = [](u128 a, u128 b) { u128 gap = N - a; return b >= gap ? b - gap : a + b; };
  auto neg = [](u128 a) { return a == 0 ? (u128)0 : N - a; };
  u128 a = s.Edge128(N - 1), b = s.Edge128(N - 1), c = s.Edge128(N - 1);
  if (s.Chance(1, 6)) b = add(neg(a), s.Draw(2) % N);
  NOTE(s, "modulus " << pbt::Str128(N) << "/" << 8 * sizeof(B) << " a=" << pbt::Str128(a) << " b=" << pbt::Str128(b) << " c=" << pbt::Str128(c));
  M x = el(a), y = el(b), z = el(c);
  REQUIRE(u(x) == a) << "a becomes " << pbt::Str128(u(x));
  REQUIRE(U(absl::uint128(M::modulus())) == N) << "modulus() is " << pbt::Str128(U(absl::uint128(M::modulus())));
  REQUIRE(u(x + y) == add(a, b)) << "a+b = " << pbt::Str128(u(x + y)) << ", expected " << pbt::Str128(add(a, b));
  REQUIRE(u(x - y) == add(a, neg(b))) << "a-b = " << pbt::Str128(u(x - y)) << ", expected " << pbt::Str128(add(a, neg(b)));
  REQUIRE(u(-x) == neg(a)) << "-a = " << pbt::Str128(u(-x)) << ", expected " << pbt::Str128(neg(a));
  REQUIRE(u((x + y) + z) == add(add(a, b), c) && u(x + (y + z)) == add(add(a, b), c)) << "three-term sums " << pbt::Str128(u((x + y) + z)) << " and " << pbt::Str128(u(x + (y + z)));
  M t = x;
  t += t;
  REQUIRE(u(t) == add(a, a)) << "a+=a gives " << pbt::Str128(u(t));
  t -= x;
  t -= y;
  t += z;
  REQUIRE(u(t) == add(add(a, neg(b)), c)) << "a-b+c by assignment gives " << pbt::Str128(u(t)) << ", expected " << pbt::Str128(add(add(a, neg(b)), c));
  t -= t;
  REQUIRE(u(t) == 0 && t == M()) << "a-=a gives " << pbt::Str128(u(t));
  REQUIRE((x == y) == (a == b) && (x != y) == (a != b)) << "comparison";
  s.NonTrivial(a != b && a != 0 && b != 0);
}
CASE(moduli, 300000, 5000000) {
  using W = absl::uint128;
  using I = unsigned __int128;
  constexpr I one = 1, top = ~(I)0;
  static const std::vector<void (*)(Src&)> f = {
      Modular<uint8_t, 1>, Modular<uint8_t, 2>, Modular<uint8_t, 127>, Modular<uint8_t, 128>, Modular<uint8_t, 129>, Modular<uint8_t, 251>, Modular<uint8_t, 255>,
      Modular<uint16_t, 3>, Modular<uint16_t, 32768>, Modular<uint16_t, 32769>, Modular<uint16_t, 65521>, Modular<uint16_t, 65535>,
      Modular<uint32_t, 1>, Modular<uint32_t, (one << 31)>, Modular<uint32_t, (one << 31) + 11>, Modular<uint32_t, (one << 32) - 1>, Modular<uint32_t, 65537>,
      Modular<uint64_t, 5>, Modular<uint64_t, (one << 32) + 15>, Modular<uint64_t, (one << 63)>, Modular<uint64_t, (one << 63) + 29>, Modular<uint64_t, (one << 64) - 1>,
      Modular<W, 1>, Modular<W, 2>, Modular<W, (one << 64) - 59>, Modular<W, (one << 64)>, Modular<W, (one << 64) + 13>, Modular<W, (one << 127) - 1>, Modular<W, (one << 127)>,
      Modular<W, (one << 127) + 1>, Modular<W, top - 158>, Modular<W, top>,
      Modular<I, 3>, Modular<I, (one << 127) + 1>, Modular<I, top>};
  f[s.Draw(f.size() - 1)](s);
}

// Sampling: the documented base-2^128 procedure, exactly.
static std::vector<u128> RefSample(const std::string& bytes, int base_bytes, u128 n, int count) {
  auto le = [&](size_t at, int len) { u128 x = 0; for (int i = len - 1; i >= 0; i--) x = x << 8 | (unsigned char)bytes[at + i]; return x; };
  u128 r = le(0, 16);
  std::vector<u128> out;
  for (int i = 0; i < count; i++) {
    out.push_back(r % n);
    if (i + 1 < count) {
      u128 next = le(16 + (size_t)i * base_bytes, base_bytes);
      r = base_bytes == 16 ? next : ((r / n) << (8 * base_bytes) | next);
    }
  }
  return out;
}
static double SigmaOf(int count, u128 n) { return 131 - std::log2((double)n) - std::log2((double)count) - std::log2((double)count + 1); }
template <typename M> void Sample(Src& s, const char* name) {
  using B = typename M::Base;
  u128 n = U(absl::uint128(M::modulus()));
  int count = s.Chance(1, 10) ? (int)s.Small(13, 80) : (int)s.Small(0, 12);
  double sec = s.Int(0, 4 * 140) / 4.0;
  size_t need = 16 + sizeof(B) * (size_t)std::max(0, count - 1);
  size_t len = std::max<int64_t>(0, (int64_t)need + s.Pick<int>({0, 0, 0, 1, 16, -1, -16}));
  std::string bytes = s.Chance(1, 8) ? std::string(len, '\xff') : s.Blob(len);
  NOTE(s, name << " " << count << " samples from " << len << " bytes " << pbt::Hex(bytes, 48) << " security " << sec);
  std::vector<M> got(count);
  double sigma = count > 0 ? SigmaOf(count, n) : 0;
  absl::Status st = M::SampleFromBytes(bytes, sec, absl::MakeSpan(got));
  auto nb = M::GetNumBytesRequired(count, sec);
  if (count > 0 && std::abs(sec - sigma) < 1e-6) return;
  bool valid = count > 0 && sec < sigma;
  REQUIRE(nb.ok() == valid) << "byte count for " << count << " samples with " << sec << " bits: " << nb.status() << ", achievable " << sigma;
  if (valid) REQUIRE(*nb == (int)need) << *nb << " bytes required, expected " << need;
  else REQUIRE(nb.status().code() == absl::StatusCode::kInvalidArgument) << nb.status();
  REQUIRE(st.ok() == (valid && len >= need)) << "sampling: " << st << "; achievable " << sigma << ", bytes needed " << need;
  if (!st.ok()) REQUIRE(st.code() == absl::StatusCode::kInvalidArgument) << st;
  s.NonTrivial(st.ok() && count > 1);
  if (!st.ok()) return;
  auto want = RefSample(bytes, sizeof(B), n, count);
  for (int i = 0; i < count; i++)
    REQUIRE(U(absl::uint128(got[i].value())) == want[i]) << "sample " << i << " is " << pbt::Str128(U(absl::uint128(got[i].value()))) << ", expected " << pbt::Str128(want[i]);
}
CASE(sampling, 600000, 8000000) {
  switch (s.Draw(10)) {
    case 8: Sample<Mod<absl::uint128, ~(unsigned __int128)0>>(s, "2^128-1/128"); break;
    case 9: Sample<Mod<absl::uint128, ((unsigned __int128)1 << 100) + 277>>(s, "2^100+277/128"); break;
    case 10: Sample<Mod<uint64_t, (1ull << 63) + 29>>(s, "2^63+29/64"); break;
    case 0: Sample<Mod<uint32_t, 4294967291u>>(s, "2^32-5/32"); break;
    case 1: Sample<Mod<uint64_t, 18446744073709551557ull>>(s, "2^64-59/64"); break;
    case 2: Sample<Mod<uint8_t, 251>>(s, "251/8"); break;
    case 3: Sample<Mod<absl::uint128, ((u128)1 << 80) - 65>>(s, "2^80-65/128"); break;
    case 4: Sample<Mod<uint16_t, 1000>>(s, "1000/16"); break;
    case 5: Sample<Mod<absl::uint128, 1000003>>(s, "1000003/128"); break;
    case 6: Sample<Mod<uint64_t, 3>>(s, "3/64"); break;
    default: Sample<Mod<uint32_t, 1>>(s, "1/32"); break;
  }
}

// Pseudorandom bytes to elements of any type, and the correction between the
// elements of two parties.
CASE(conversion, 150000, 3000000) {
  const TypeOps& t = s.Pick(Types());
  s.Label("type " + t.name.substr(0, 48));
  size_t need = BytesOf(t);
  auto bytes = [&](size_t n) {
    std::string b = s.Blob(n);
    // Ends of the range, here and there.
    for (int k = (int)s.Small(0, 3); k > 0; k--) { size_t at = s.Draw(n - 1), len = s.Int(1, 16); for (size_t i = at; i < std::min(n, at + len); i++) b[i] = s.Bool() ? '\xff' : 0; }
    return b;
  };
  std::string a = bytes(need), b = bytes(need);
  NOTE(s, t.name << " from " << pbt::Hex(a, 64));
  // The library may be given more than it needs, never less.
  std::string more = a + s.Blob(s.Pick<int>({0, 0, 1, 16}));
  std::vector<char> exact(more.begin(), more.end());   // its end is the buffer's end
  Results got = t.convert(absl::string_view(exact.data(), exact.size()));
  Results want = ConvertBytes(t, a);
  REQUIRE(got.size() == want.size()) << got.size() << " elements, expected " << want.size();
  for (size_t i = 0; i < got.size(); i++) REQUIRE(got[i] == want[i]) << "element " << i << " is " << Show(got[i]) << ", expected " << Show(want[i]);
  Leaves beta = DrawValue(s, t);
  int index = (int)s.Draw(PerBlock(t) - 1);
  bool invert = s.Bool();
  auto c = t.correction(a, b, index, ValueProto(t.shape, beta), invert);
  REQUIRE(c.ok()) << c.status();
  REQUIRE(c->size() == want.size()) << c->size() << " corrections";
  Results other = ConvertBytes(t, b);
  for (size_t i = 0; i < want.size(); i++) {
    Leaves d = Add(t.leaves, other[i], Neg(t, want[i]));
    if ((int)i == index) d = Add(t.leaves, d, beta);
    if (invert) d = Neg(t, d);
    auto v = t.from_value((*c)[i]);
    REQUIRE(v.ok()) << v.status();
    REQUIRE(*v == d) << "correction " << i << " (special element " << index << ", beta " << Show(beta) << (invert ? ", inverted" : "") << ") is " << Show(*v) << ", expected " << Show(d);
  }
  s.NonTrivial(a != b && want[0] != Zero(t));
}

// Samples of power-of-two moduli have independent, balanced bits.
template <typename M> void Balance(Src& s, const char* name) {
  const int count = 3, rounds = 4000;
  int bits = 0;
  while (((u128)1 << bits) < U(absl::uint128(M::modulus()))) bits++;
  std::vector<int> ones(count * bits);
  for (int r = 0; r < rounds; r++) {
    std::string b = pbt::Src::Expand(s.Draw(~0ull) | 1, 16 * count);
    std::vector<M> got(count);
    REQUIRE(M::SampleFromBytes(b, 1, absl::MakeSpan(got)).ok());
    for (int i = 0; i < count; i++)
      for (int j = 0; j < bits; j++) ones[i * bits + j] += (int)((U(absl::uint128(got[i].value())) >> j) & 1);
  }
  NOTE(s, name);
  for (int i = 0; i < count * bits; i++)
    REQUIRE(std::abs(ones[i] - rounds / 2) < 350) << name << ": bit " << i % bits << " of sample " << i / bits << " was set " << ones[i] << " times in " << rounds;  // 11 sigma
  s.NonTrivial();
}
CASE(balance, 40, 400) {
  switch (s.Draw(3)) {
    case 0: Balance<Mod<uint32_t, 65536>>(s, "2^16/32"); break;
    case 1: Balance<Mod<uint64_t, 1 << 20>>(s, "2^20/64"); break;
    case 2: Balance<Mod<absl::uint128, 1 << 20>>(s, "2^20/128"); break;
    default: Balance<Mod<uint8_t, 128>>(s, "2^7/8"); break;
  }
}

// Accounting for any modulus, count and base size.
CASE(accounting, 200000, 3000000) {
  int base = s.Bool() ? s.Pick<int>({8, 16, 32, 64, 128}) : (int)s.Int(-2, 140);
  u128 n = s.Edge128(base >= 128 || base <= 0 ? ~(u128)0 : s.Chance(1, 6) ? ~(u128)0 : (((u128)1 << base)));
  if (n == 0) n = 1;
  int count = (int)s.Small(-1, 5000);
  double sigma = count > 0 ? SigmaOf(count, n) : 0, sec;
  switch (s.Draw(2)) {
    case 0: sec = sigma + s.Int(-40, 40) / 8.0 + 0.01; break;
    case 1: sec = 0; break;
    default: sec = s.Int(0, 1000) / 7.0;
  }
  if (sec < 0) sec = 0;
  NOTE(s, count << " samples mod " << pbt::Str128(n) << " base " << base << " security " << sec);
  auto r = D::dpf_internal::IntModNBase::GetNumBytesRequired(count, base, A(n), sec);
  auto c = D::dpf_internal::IntModNBase::CheckParameters(count, base, A(n), sec);
  bool border = count > 0 && std::abs(sec - sigma) < 1e-6;
  bool valid = count > 0 && base > 0 && base <= 128 && (base == 128 || n <= ((u128)1 << base)) && sec < sigma;
  REQUIRE(r.ok() == c.ok()) << r.status() << " vs " << c;
  if (count > 0) {
    double lib = D::dpf_internal::IntModNBase::GetSecurityLevel(count, A(n));
    REQUIRE(std::abs(lib - sigma) < 1e-6) << "security level " << lib << ", documented " << sigma;
  }
  if (border) return;
  REQUIRE(r.ok() == valid) << r.status() << "; achievable security " << sigma;
  if (valid) REQUIRE(*r == 16 + (base + 7) / 8 * (count - 1)) << *r << " bytes";
  else REQUIRE(c.code() == absl::StatusCode::kInvalidArgument) << c;
  s.NonTrivial(count > 0 && std::abs(sec - sigma) < 6);
}
