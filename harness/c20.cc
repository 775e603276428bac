// C20: a dense database holds exactly what was inserted, for any builder history.
// LIBS: pir
#include <algorithm>
#include <functional>
#include <memory>
#include "pbt.h"
#include "pir/canonical_status_payload_uris.h"
#include "pir/dense_dpf_pir_database.h"
#include "pir/private_information_retrieval.pb.h"
#include "sel.h"

namespace D = distributed_point_functions;
using pbt::Src;
typedef D::DenseDpfPirDatabase Db;

const char* const pbt::kRule =
    "A case is a history of up to 60 operations over up to 5 builders (insert, clone, clear, build, build again, drop) and "
    "the databases they gave, with values of 0..200 bytes around multiples of 16; a model holds the expected contents. "
    "Databases are queried when built, later in the history and after all builders are gone. Non-trivial: the history "
    "clones or reuses a builder and a database of two or more values of different sizes is queried.";
const std::vector<std::string> pbt::kAssumptions = {};

struct Builder {
  std::unique_ptr<Db::Interface::Builder> b;
  std::vector<std::string> values;
  bool built = false;
};
struct Base {
  std::unique_ptr<Db::Interface> d;
  std::vector<std::string> values;
};

static std::string DrawValue(Src& s) {
  size_t n;
  switch (s.Draw(3)) {
    case 0: n = (size_t)s.Small(0, 20); break;
    case 1: n = (size_t)s.Pick({0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129}); break;
    case 2: n = (size_t)s.Small(0, 200); break;
    default: n = 16;
  }
  return s.Blob(n);
}

static void Check(Src& s, const Base& x, const char* when) {
  size_t n = x.values.size(), max = 0;
  for (auto& v : x.values) max = std::max(max, v.size());
  REQUIRE(x.d->size() == n) << when << ": size " << x.d->size() << " for " << n << " values";
  REQUIRE(x.d->num_selection_bits() == n) << when << ": num_selection_bits " << x.d->num_selection_bits();
  auto* db = dynamic_cast<const Db*>(x.d.get());
  REQUIRE(db != nullptr);
  REQUIRE(db->max_value_size_in_bytes() == max) << when << ": max_value_size " << db->max_value_size_in_bytes() << " != " << max;
  REQUIRE(db->content().size() == n) << when;
  for (size_t i = 0; i < n; i++) {
    REQUIRE(db->content()[i] == x.values[i]) << when << ": content of record " << i;
    if (!x.values[i].empty()) REQUIRE((uintptr_t)db->content()[i].data() % 16 == 0) << when << ": record " << i << " is not aligned to 128 bits";
  }
  std::vector<sel::Selection> q;
  int k = (int)s.Small(1, 4);
  for (int i = 0; i < k; i++) q.push_back(n > 0 && s.Bool() ? sel::One(n, s.Draw(n - 1)) : sel::Random(s, n));
  auto r = x.d->InnerProductWith(q);
  if (max == 0) {
    REQUIRE(!r.ok()) << when << ": answer from a database without bytes";
    REQUIRE(r.status().code() == absl::StatusCode::kInvalidArgument) << r.status();
    auto p = r.status().GetPayload(D::kPirInternalErrorUri);
    D::CanonicalPirError e;
    REQUIRE(p.has_value() && e.ParseFromString(std::string(*p)) && e.code() == D::CanonicalPirError::MAX_VALUE_SIZE_IS_ZERO) << when << ": " << r.status();
    s.Label("no bytes");
    return;
  }
  REQUIRE(r.ok()) << when << ": " << r.status();
  REQUIRE(r->size() == q.size()) << when;
  for (int i = 0; i < k; i++) {
    std::string want = sel::Xor(x.values, q[i]);
    REQUIRE((*r)[i].size() == want.size()) << when << ": answer of " << (*r)[i].size() << " bytes, longest value has " << want.size();
    REQUIRE((*r)[i] == want) << when << ": answer to selection " << i;
  }
  if (s.Chance(1, 3)) {  // the same vectors with other contents
    for (int i = 0; i < k; i++) {
      sel::Selection other = sel::Random(s, n);
      std::copy(other.begin(), other.end(), q[i].begin());
    }
    auto r2 = x.d->InnerProductWith(q);
    REQUIRE(r2.ok()) << when << ": " << r2.status();
    REQUIRE(r2->size() == q.size()) << when;
    for (int i = 0; i < k; i++) REQUIRE((*r2)[i] == sel::Xor(x.values, q[i])) << when << ": answer to selection " << i << ", changed in place";
  }
  if (s.Chance(1, 8)) {  // fewer selection bits than records are refused
    q[0].pop_back();
    auto bad = x.d->InnerProductWith(q);
    REQUIRE(!bad.ok()) << when << ": too few selection bits accepted";
  }
}

CASE(histories, 3000, 150000) {
  std::vector<Builder> bs;
  std::vector<Base> ds;
  bs.push_back({std::make_unique<Db::Builder>(), {}, false});
  bool reused = false, sizes = false;
  int ops = (int)s.Small(1, 60);
  for (int op = 0; op < ops; op++) {
    if (bs.empty()) bs.push_back({std::make_unique<Db::Builder>(), {}, false});
    Builder& x = bs[s.Draw(bs.size() - 1)];
    size_t id = &x - &bs[0];
    switch (s.Draw(9)) {
      default: {
        int n = (int)(s.Chance(1, 6) ? s.Small(1, 150) : s.Small(1, 6));
        NOTE(s, "b" << id << ".insert x" << n);
        auto* p = x.b.get();
        for (int i = 0; i < n; i++) {
          std::string v = DrawValue(s);
          x.values.push_back(v);
          auto& same = p->Insert(v);
          REQUIRE(&same == p) << "Insert must return the builder itself";
        }
        break;
      }
      case 5: {
        NOTE(s, "b" << id << ".clone");
        if (bs.size() >= 5) break;
        Builder c{x.b->Clone(), x.values, x.built};
        REQUIRE(c.b != nullptr);
        reused = true;
        bs.push_back(std::move(c));
        break;
      }
      case 6:
        NOTE(s, "b" << id << ".clear");
        x.b->Clear();
        x.values.clear();
        x.built = false;
        reused = true;
        break;
      case 7:
      case 8: {
        NOTE(s, "b" << id << ".build" << (x.built ? " (again)" : ""));
        auto* db = dynamic_cast<Db::Builder*>(x.b.get());
        REQUIRE(db != nullptr) << "Clone gave another kind of builder";
        if (!x.built) {
          int64_t bytes = 0;
          for (auto& v : x.values) bytes += (v.size() + 15) / 16 * 16;
          REQUIRE(db->total_database_bytes() == bytes) << "total_database_bytes " << db->total_database_bytes() << " != " << bytes;
        }
        auto r = x.b->Build();
        if (x.built) {
          REQUIRE(!r.ok()) << "built twice";
          REQUIRE(r.status().code() == absl::StatusCode::kFailedPrecondition) << r.status();
          s.Label("refused build");
          break;
        }
        REQUIRE(r.ok()) << r.status();
        REQUIRE(*r != nullptr);
        x.built = true;
        ds.push_back({std::move(*r), std::move(x.values)});
        x.values.clear();
        std::set<size_t> sz;
        for (auto& v : ds.back().values) sz.insert(v.size());
        sizes |= sz.size() >= 2;
        Check(s, ds.back(), "when built");
        break;
      }
      case 9:
        if (s.Bool() && !ds.empty()) { NOTE(s, "query"); Check(s, s.Pick(ds), "later"); }
        else if (bs.size() > 1) { NOTE(s, "b" << id << " dropped"); bs.erase(bs.begin() + id); }
    }
  }
  bs.clear();
  for (auto& d : ds) Check(s, d, "after the builders are gone");
  s.NonTrivial(reused && sizes);
}

// One larger database, each record selected on its own.
static void EachRecord(Src& s, int n, std::function<std::string(int)> value) {
  Db::Builder b;
  Base x;
  for (int i = 0; i < n; i++) {
    std::string v = value(i);
    x.values.push_back(v);
    b.Insert(std::move(v));
  }
  auto r = b.Build();
  REQUIRE(r.ok()) << r.status();
  x.d = std::move(*r);
  Check(s, x, "when built");
  size_t max = 0;
  for (auto& v : x.values) max = std::max(max, v.size());
  if (max == 0) return;
  std::vector<sel::Selection> q;
  std::vector<int> asked;
  for (int i = 0; i < n; i++)
    if (n <= 1500 || i < 3 || i + 3 >= n || s.Chance(1, n / 40)) { asked.push_back(i); q.push_back(sel::One(n, i)); }
  auto a = x.d->InnerProductWith(q);
  REQUIRE(a.ok()) << a.status();
  for (size_t j = 0; j < asked.size(); j++) {
    std::string want = x.values[asked[j]];
    want.resize(max, '\0');
    REQUIRE((*a)[j] == want) << "record " << asked[j] << " of " << n;
  }
  s.NonTrivial(n > 128);
}

CASE(each_record, 400, 15000) {
  int n = (int)s.Pick({1, 2, 127, 128, 129, 255, 256, 257, 300, 383, 384, 385, 640, 1000});
  if (s.Bool()) n = (int)s.Int(1, 700);
  bool same = s.Bool();
  size_t len = (size_t)s.Int(1, 40);
  NOTE(s, n << " records" << (same ? " of " + std::to_string(len) + " bytes" : ""));
  EachRecord(s, n, [&](int) { return same ? s.Blob(len) : DrawValue(s); });
}
// Many records, or long ones.
CASE(large, 12, 400) {
  int n;
  size_t len;
  if (s.Bool()) { n = (int)s.Small(1000, 30000); len = (size_t)s.Small(1, 40); }
  else { n = (int)s.Small(1, 30); len = (size_t)s.Small(200, 300000); }
  bool same = s.Bool();
  pbt::Rng r{s.Draw(~0ull)};
  NOTE(s, n << " records of " << (same ? "" : "up to ") << len << " bytes");
  EachRecord(s, n, [&](int) { return Src::Expand(r.Next() | 1, same ? len : r.Next() % (len + 1)); });
}

// More than 2^31 bytes of values.
HUGE_CASE(huge, 1, 4) {
  int n = (int)s.Int(3, 4);
  uint64_t salt = s.Draw(~0ull);
  std::vector<uint64_t> len;
  auto b = std::make_unique<Db::Builder>();
  for (int i = 0; i < n; i++) {
    len.push_back(s.Chance(1, 4) ? s.Small(1, 100) : (1ull << 30) - 64 + s.Draw(200));
    if (i == 0) len[0] = (1ull << 30) + s.Draw(100);
    std::string v(len[i], '\0');
    pbt::FillAt(salt + 2 * i, &v[0], v.size());
    NOTE(s, "value of " << len[i] << " bytes");
    b->Insert(std::move(v));
  }
  auto r = b->Build();
  REQUIRE(r.ok()) << r.status();
  b.reset();
  uint64_t max = *std::max_element(len.begin(), len.end());
  auto* db = dynamic_cast<const Db*>(r->get());
  REQUIRE(db->size() == (size_t)n && db->max_value_size_in_bytes() == max && db->content().size() == (size_t)n);
  auto value = [&](int i, uint64_t at) { return at < len[i] ? pbt::ByteAt(salt + 2 * i, at) : (char)0; };
  auto pos = pbt::Positions(s, max, 3000);
  for (int i = 0; i < n; i++) {
    REQUIRE(db->content()[i].size() == len[i]);
    for (uint64_t p : pos) if (p < len[i]) REQUIRE(db->content()[i][p] == value(i, p)) << "content of record " << i << " at byte " << p;
  }
  std::vector<sel::Selection> q = {sel::Random(s, n)};
  auto a = db->InnerProductWith(q);
  REQUIRE(a.ok() && a->size() == 1) << a.status();
  REQUIRE((*a)[0].size() == max) << (*a)[0].size() << " bytes";
  for (uint64_t p : pos) {
    char want = 0;
    for (int i = 0; i < n; i++) if (sel::Bit(q[0], i)) want ^= value(i, p);
    REQUIRE((*a)[0][p] == want) << "answer differs at byte " << p;
  }
  s.NonTrivial();
}
