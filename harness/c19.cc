// C19: the inner product XORs exactly the selected values.
// LIBS: inner
#include <memory>
#include "hwy/targets.h"
#include "pbt.h"
#include "pir/canonical_status_payload_uris.h"
#include "pir/internal/inner_product_hwy.h"
#include "pir/private_information_retrieval.pb.h"

namespace D = distributed_point_functions;
using pbt::Src;
using pbt::u128;

const char* const pbt::kRule =
    "A case draws values (sizes 0..600 around the vector widths, each in a buffer of its exact size at a drawn alignment, "
    "or views of one contiguous buffer), packed selection vectors (random, sparse, all, none, bits set behind the last value) "
    "and a maximum size, runs every SIMD variant this CPU offers and compares with a byte-wise XOR; or arguments that do "
    "not fit. Non-trivial: at least two values of different sizes selected; for refusals, an argument that does not fit.";
const std::vector<std::string> pbt::kAssumptions = {};

static std::string PickTarget(Src& s) {
  hwy::SetSupportedTargetsForTest(0);
  hwy::GetChosenTarget().Update(hwy::SupportedTargets());
  static const std::vector<int64_t> targets = hwy::SupportedAndGeneratedTargets();
  int64_t t = targets[s.Draw(targets.size() - 1)];
  hwy::SetSupportedTargetsForTest(t);
  hwy::GetChosenTarget().Update(hwy::SupportedTargets());
  return hwy::TargetName(t);
}

struct Values {
  std::vector<std::unique_ptr<char, void (*)(void*)>> owned;
  std::string contiguous;
  std::vector<absl::string_view> views;
  void Add(const std::string& v, size_t align, size_t offset) {
    // The value ends where the allocation ends.
    char* p = static_cast<char*>(aligned_alloc(align, (offset + v.size() + align - 1) / align * align + align));
    size_t room = (offset + v.size() + align - 1) / align * align + align;
    (void)room;
    owned.emplace_back(p, free);
    memcpy(p + offset, v.data(), v.size());
    views.emplace_back(p + offset, v.size());
  }
  // Exact allocation: an access behind the value is out of bounds.
  void AddExact(const std::string& v, size_t align) {
    void* p = nullptr;
    if (posix_memalign(&p, align, std::max<size_t>(v.size(), 1)) != 0) abort();
    owned.emplace_back(static_cast<char*>(p), free);
    memcpy(p, v.data(), v.size());
    views.emplace_back(static_cast<char*>(p), v.size());
  }
};

static size_t DrawSize(Src& s, size_t max) {
  size_t n;
  switch (s.Draw(3)) {
    case 0: n = s.Small(0, max); break;
    case 1: n = (size_t)s.Pick({0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 255, 256, 257}); break;
    case 2: n = max; break;
    default: n = s.Draw(max);
  }
  return std::min(n, max);
}

static void DrawValues(Src& s, int count, size_t max, Values* v) {
  int mode = (int)s.Draw(3);
  uint64_t salt = s.Draw(~0ull);
  bool equal_sizes = s.Chance(1, 4);
  std::vector<size_t> ends;
  for (int i = 0; i < count; i++) {
    size_t n = equal_sizes ? max : DrawSize(s, max);
    std::string x = Src::Expand(salt ? pbt::Mix(salt + i) : 0, n);
    switch (mode) {
      case 0: v->AddExact(x, s.Pick({16, 64, 128})); break;
      case 1: v->Add(x, 64, s.Draw(63)); break;
      case 2: v->AddExact(x, s.Pick({8, 16, 32, 64})); break;
      default: v->contiguous += x; ends.push_back(v->contiguous.size());
    }
  }
  size_t at = 0;
  for (size_t e : ends) { v->views.emplace_back(v->contiguous.data() + at, e - at); at = e; }
}

typedef D::pir_internal::BlockType Sel;
typedef std::vector<std::vector<Sel>> Selections;
static D::pir_internal::BlockType Blk(u128 x) { return D::pir_internal::BlockType(absl::MakeUint128((uint64_t)(x >> 64), (uint64_t)x)); }
static bool Bit(const Selections& sel, int k, int i) { return (absl::Uint128Low64(sel[k][i / 128].value() >> (i % 128)) & 1) != 0; }

static void DrawSelections(Src& s, int count, int blocks, int values, Selections* sel) {
  for (int k = 0; k < count; k++) {
    int mode = (int)s.Draw(4);
    pbt::Rng r{s.Draw(~0ull)};
    std::vector<u128> b(blocks);
    for (int i = 0; i < blocks; i++) {
      u128 x = ((u128)r.Next() << 64) | r.Next();
      if (mode == 0) x = 0;
      if (mode == 1) x = ~(u128)0;
      if (mode == 2) x &= (((u128)r.Next() << 64) | r.Next()) & (((u128)r.Next() << 64) | r.Next());
      b[i] = x;
    }
    if (mode == 0 && blocks > 0)
      for (int n = (int)s.Draw(3); n > 0; n--) {
        int at = (int)s.Draw(s.Bool() && values ? values - 1 : blocks * 128 - 1);
        b[at / 128] |= (u128)1 << (at % 128);
      }
    sel->emplace_back();
    for (u128 x : b) sel->back().push_back(Blk(x));
  }
}

static void Products(Src& s, int n, size_t max, int max_selections) {
  std::string target = PickTarget(s);
  Values v;
  DrawValues(s, n, max, &v);
  int blocks = (n + 127) / 128 + (int)(s.Chance(1, 4) ? s.Int(0, 3) : 0);
  Selections sel;
  int k = (int)(s.Bool() ? s.Small(0, max_selections) : s.Int(0, max_selections));
  DrawSelections(s, k, blocks, n, &sel);
  int64_t out_size = (int64_t)max + (s.Chance(1, 3) ? s.Small(0, 70) : 0);
  NOTE(s, target << ": " << n << " values of up to " << max << " bytes, " << k << " selections of " << blocks << " blocks, output " << out_size);
  std::vector<std::string> want(k, std::string(out_size, '\0'));
  int chosen = 0;
  bool sizes_differ = false;
  size_t first = 0;
  for (int i = 0; i < n; i++)
    for (int q = 0; q < k; q++)
      if (Bit(sel, q, i)) {
        if (chosen++ == 0) first = v.views[i].size(); else sizes_differ |= first != v.views[i].size();
        for (size_t b = 0; b < v.views[i].size(); b++) want[q][b] ^= v.views[i][b];
      }
  auto check = [&](const absl::StatusOr<std::vector<std::string>>& r, const char* what) {
    REQUIRE(r.ok()) << what << ": " << r.status();
    REQUIRE(r->size() == (size_t)k) << what << ": " << r->size() << " results for " << k << " selections";
    for (int q = 0; q < k; q++) {
      REQUIRE((*r)[q].size() == (size_t)out_size) << what << ": result " << q << " has " << (*r)[q].size() << " bytes";
      for (int64_t b = 0; b < out_size; b++) REQUIRE((*r)[q][b] == want[q][b]) << what << ": result " << q << " differs at byte " << b;
    }
  };
  auto r = D::pir_internal::InnerProduct(v.views, sel, out_size);
  check(r, "InnerProduct");
  if (k > 0) check(D::pir_internal::InnerProductNoHwy(v.views, sel, out_size), "InnerProductNoHwy");
  if (k > 0 && n > 0 && s.Chance(1, 3)) {
    // The same selection vectors with one bit changed.
    int q = (int)s.Draw(k - 1), i = (int)s.Draw(n - 1);
    sel[q][i / 128] = D::pir_internal::BlockType(sel[q][i / 128].value() ^ (absl::uint128{1} << (i % 128)));
    for (size_t b = 0; b < v.views[i].size(); b++) want[q][b] ^= v.views[i][b];
    check(D::pir_internal::InnerProduct(v.views, sel, out_size), "InnerProduct, one selection bit changed in place");
  }
  s.NonTrivial(chosen >= 2 && sizes_differ);
  s.Label("simd " + target);
}

CASE(products, 12000, 500000) {
  int n = (int)(s.Chance(1, 5) ? s.Small(0, 400) : s.Small(0, 40));
  Products(s, n, (size_t)s.Small(1, 600), 9);
}
// Many values, long values, many selections.
CASE(large_products, 150, 2500) {
  switch (s.Draw(3)) {
    case 0: return Products(s, (int)s.Small(400, 20000), (size_t)s.Small(1, 20), 3);
    case 1: return Products(s, (int)s.Small(1, 12), (size_t)s.Small(600, s.Bool() ? 12000 : 200000), s.Bool() ? 3 : 9);
    case 2: return Products(s, (int)s.Small(1, 300), (size_t)s.Small(1, 40), 80);
    default: return Products(s, (int)s.Small(1, 1500), (size_t)s.Small(1, 300), 6);
  }
}

CASE(refusals, 12000, 400000) {
  std::string target = PickTarget(s);
  Values v;
  int n = (int)(s.Chance(1, 5) ? s.Small(0, 400) : s.Small(0, 20));
  size_t max = (size_t)s.Small(1, 40);
  DrawValues(s, n, max, &v);
  int blocks = (n + 127) / 128 + (int)s.Draw(1);
  Selections sel;
  int k = (int)(s.Chance(1, 6) ? s.Small(0, 80) : s.Small(0, 5));
  DrawSelections(s, k, blocks, n, &sel);
  int64_t out_size = (int64_t)max;
  std::string longer;
  bool bad = false, zero_size = false;
  switch (s.Draw(4)) {
    case 4:
      // One value is too long, wherever it stands.
      if (n > 0) {
        size_t at = s.Bool() ? n - 1 : s.Draw(n - 1);
        longer = Src::Expand(s.Draw(~0ull), max + (size_t)s.Small(1, 40));
        v.views[at] = longer;
        NOTE(s, "value " << at << " has " << longer.size() << " bytes");
      }
      break;
    case 0:
      if (k > 0) {
        auto& x = sel[s.Bool() ? k - 1 : s.Draw(k - 1)];
        if (s.Bool() && !x.empty()) x.pop_back(); else x.push_back(Blk(0));
        for (auto& y : sel) bad |= y.size() != sel[0].size() || y.size() * 128 < (size_t)n;
      }
      break;
    case 1: {
      if (k > 0) {
        for (auto& x : sel) if (!x.empty()) x.pop_back();
        bad = sel[0].size() * 128 < (size_t)n;
      }
      break;
    }
    case 2: out_size = s.Bool() ? s.Int(-3, 0) : (int64_t)s.Edge(~0ull); if (out_size > (1 << 20)) out_size = -out_size; if (out_size <= 0 && k > 0) bad = zero_size = true; break;
    default: out_size = (int64_t)s.Int(1, max);
  }
  if (k > 0 && out_size > 0) for (auto& x : v.views) bad |= (int64_t)x.size() > out_size;
  NOTE(s, target << ": " << n << " values, " << k << " selections, output " << out_size << (bad ? " (does not fit)" : ""));
  auto r = D::pir_internal::InnerProduct(v.views, sel, out_size);
  if (bad) {
    REQUIRE(!r.ok()) << "accepted";
    REQUIRE(r.status().code() == absl::StatusCode::kInvalidArgument) << r.status();
    if (zero_size) {
      bool sizes_bad = false;
      for (auto& y : sel) sizes_bad |= y.size() * 128 < (size_t)n || y.size() != sel[0].size();
      auto p = r.status().GetPayload(D::kPirInternalErrorUri);
      if (!sizes_bad) {
        REQUIRE(p.has_value()) << "no payload";
        D::CanonicalPirError e;
        REQUIRE(e.ParseFromString(std::string(*p)) && e.code() == D::CanonicalPirError::MAX_VALUE_SIZE_IS_ZERO);
      }
    }
  } else {
    REQUIRE(r.ok()) << "refused: " << r.status();
    REQUIRE(r->size() == (size_t)k);
  }
  s.NonTrivial(bad);
}

// Values beyond 2^31 and 2^32 bytes (windows of one buffer).
// Selection vectors far longer than the values: what lies beyond selects nothing.
HUGE_CASE(huge_selections, 1, 4) {
  std::string target = PickTarget(s);
  // 2^24 and 2^25 blocks are 2^31 and 2^32 bits.
  uint64_t blocks = s.Pick<uint64_t>({(1ull << 25) + 1, (1ull << 25) + 70, (1ull << 26) + 1});
  int n = (int)s.Int(1, 300);
  std::vector<std::string> strs;
  std::vector<absl::string_view> v;
  size_t max = 1;
  for (int i = 0; i < n; i++) {
    strs.push_back(s.Blob((size_t)s.Int(1, 40)));
    max = std::max(max, strs.back().size());
  }
  for (auto& x : strs) v.push_back(x);
  Selections sel(1, std::vector<Sel>(blocks, Sel(absl::uint128{0})));
  std::string want(max, 0);
  for (int i = 0; i < n; i++) {
    if (!s.Bool()) continue;
    sel[0][i / 128] = Sel(sel[0][i / 128].value() | absl::uint128{1} << (i % 128));
    for (size_t p = 0; p < v[i].size(); p++) want[p] ^= v[i][p];
  }
  for (uint64_t b = ((uint64_t)n + 127) / 128; b < blocks; b++)
    if (b >= 1ull << 24 || b % 4096 == 17) sel[0][b] = Sel(absl::MakeUint128(b * 0x9e3779b97f4a7c15ull, b ^ 0x5555555555555555ull));
  NOTE(s, target << ": " << n << " values, " << blocks << " blocks of selections");
  auto r = D::pir_internal::InnerProduct(v, sel, (int64_t)max);
  REQUIRE(r.ok() && r->size() == 1) << r.status();
  REQUIRE((*r)[0] == want) << "surplus selection bits were used";
  auto q = D::pir_internal::InnerProductNoHwy(v, sel, (int64_t)max);
  REQUIRE(q.ok() && q->size() == 1) << q.status();
  REQUIRE((*q)[0] == want) << "surplus selection bits were used without Highway";
  s.NonTrivial(true);
}

HUGE_CASE(huge, 1, 4) {
  std::string target = PickTarget(s);
  uint64_t total = s.Pick<uint64_t>({(1ull << 31) + 200, (1ull << 31) + 8191, (1ull << 31) + (1ull << 27)}), salt = s.Draw(~0ull);
  std::string buf(total, '\0');
  pbt::FillAt(salt, &buf[0], total);
  int n = (int)s.Int(1, 3);
  std::vector<absl::string_view> v;
  std::vector<uint64_t> from;
  uint64_t max = 0;
  for (int i = 0; i < n; i++) {
    from.push_back(16 * s.Draw(6) + (s.Bool() ? s.Draw(15) : 0));
    uint64_t len = i && s.Bool() ? s.Draw(1000) : total - from[i] - s.Draw(100);
    v.push_back(absl::string_view(buf).substr(from[i], len));
    max = std::max(max, len);
  }
  Selections sel;
  DrawSelections(s, 1, 1, n, &sel);
  NOTE(s, target << ": " << n << " values of up to " << max << " bytes");
  auto r = D::pir_internal::InnerProduct(v, sel, (int64_t)max);
  REQUIRE(r.ok() && r->size() == 1) << r.status();
  REQUIRE((*r)[0].size() == max) << (*r)[0].size();
  for (uint64_t p : pbt::Positions(s, max, 5000)) {
    char want = 0;
    for (int i = 0; i < n; i++) if (Bit(sel, 0, i) && p < v[i].size()) want ^= v[i][p];
    REQUIRE((*r)[0][p] == want) << "result differs at byte " << p;
  }
  s.NonTrivial();
}
