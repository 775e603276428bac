// C16: simple and multiple-choice tables place every element where documented,
// respect the bucket limit, and refuse an insertion without side effects.
// LIBS: hashing
#include <algorithm>

#include "hash_model.h"
#include "pbt.h"
#include "pir/hashing/multiple_choice_hash_table.h"
#include "pir/hashing/simple_hash_table.h"
using namespace distributed_point_functions;
using pbt::Src;

const char* const pbt::kRule =
    "A case draws 1-5 hash functions (well mixed, colliding, constant, equal, SHA-256 or FarmHash), 1-40 buckets, a bucket "
    "limit or none, and a history of up to 120 insertions with duplicates; after each insertion the whole table must "
    "equal a model's. Non-trivial: some bucket holds two elements.";
const std::vector<std::string> pbt::kAssumptions = {};
typedef std::vector<std::vector<std::string>> Table;

static std::string DrawElement(Src& s, std::vector<std::string>* used) {
  std::string x;
  if (!used->empty() && s.Chance(1, 8)) x = s.Pick(*used);
  else x = s.Chance(1, 15) ? s.Str(5) : "k" + std::to_string(s.Draw(1000000));
  used->push_back(x);
  return x;
}
static bool Crowded(const Table& t) {
  for (auto& b : t) if (b.size() > 1) return true;
  return false;
}

CASE(simple, 40000, 600000) {
  std::vector<HashFunction> fns;
  int k = (int)s.Small(1, 5), buckets = (int)s.Small(1, 40);
  auto model = hm::Draw(s, k, &fns);
  absl::optional<int> limit;
  if (s.Bool()) limit = (int)s.Small(1, 8);
  NOTE(s, hm::Show(model) << "buckets=" << buckets << " limit=" << (limit ? std::to_string(*limit) : "none"));
  auto r = SimpleHashTable::Create(std::move(fns), buckets, limit);
  REQUIRE(r.ok()) << r.status();
  Table want(buckets);
  std::vector<std::string> used;
  int n = (int)s.Small(1, 60);
  for (int i = 0; i < n; i++) {
    std::string x = DrawElement(s, &used);
    Table next = want;
    for (auto& f : model) next[f(x, buckets)].push_back(x);
    bool fits = true;
    if (limit) for (auto& b : next) fits &= (int)b.size() <= *limit;
    auto st = (*r)->Insert(x);
    NOTE(s, "insert " << pbt::Hex(x));
    REQUIRE(st.ok() == fits) << "insertion " << i << ": " << st << (fits ? " although it fits" : " although a bucket would exceed its limit");
    if (fits) want = next;
    else { REQUIRE(st.code() == absl::StatusCode::kInternal) << st; s.Label("refused"); }
    REQUIRE((*r)->GetTable() == want) << "table differs after insertion " << i;
  }
  std::string probe = s.Str(6);
  REQUIRE((int)(*r)->GetHashFunctions().size() == k);
  for (int i = 0; i < k; i++) REQUIRE((*r)->GetHashFunctions()[i](probe, buckets) == model[i](probe, buckets));
  s.NonTrivial(Crowded(want));
}

CASE(multiple_choice, 40000, 600000) {
  std::vector<HashFunction> fns;
  int k = (int)s.Small(2, 5), buckets = (int)s.Small(1, 40);
  auto model = hm::Draw(s, k, &fns);
  absl::optional<int> limit;
  if (s.Bool()) limit = (int)s.Small(1, 6);
  NOTE(s, hm::Show(model) << "buckets=" << buckets << " limit=" << (limit ? std::to_string(*limit) : "none"));
  auto r = MultipleChoiceHashTable::Create(std::move(fns), buckets, limit);
  REQUIRE(r.ok()) << r.status();
  Table now(buckets);
  std::vector<std::string> used;
  int n = (int)s.Small(1, 120);
  for (int i = 0; i < n; i++) {
    std::string x = DrawElement(s, &used);
    size_t least = ~(size_t)0;
    for (auto& f : model) least = std::min(least, now[f(x, buckets)].size());
    bool fits = !limit || (int)least < *limit;
    auto st = (*r)->Insert(x);
    NOTE(s, "insert " << pbt::Hex(x));
    REQUIRE(st.ok() == fits) << "insertion " << i << " (least loaded choice holds " << least << "): " << st;
    const Table& t = (*r)->GetTable();
    if (!fits) {
      REQUIRE(st.code() == absl::StatusCode::kInternal) << st;
      REQUIRE(t == now) << "a refused insertion changed the table";
      s.Label("refused");
      continue;
    }
    // Exactly one bucket grew, by x at its end; it is one of x's and was least loaded.
    int grown = -1;
    REQUIRE((int)t.size() == buckets);
    for (int b = 0; b < buckets; b++) {
      if (t[b] == now[b]) continue;
      REQUIRE(grown < 0) << "two buckets changed";
      grown = b;
      Table::value_type expect = now[b];
      expect.push_back(x);
      REQUIRE(t[b] == expect) << "bucket " << b << " changed otherwise than by appending";
    }
    REQUIRE(grown >= 0) << "nothing was inserted";
    bool named = false;
    for (auto& f : model) named |= f(x, buckets) == grown;
    REQUIRE(named) << "bucket " << grown << " is not named by any hash function";
    REQUIRE(now[grown].size() == least) << "bucket " << grown << " held " << now[grown].size() << ", another choice held " << least;
    now = t;
  }
  s.NonTrivial(Crowded(now));
}

// Built from a family, both tables hash with the family's functions 0..k-1.
CASE(from_family, 5000, 80000) {
  int k = (int)s.Int(1, 4), buckets = (int)s.Int(1, 300);
  std::string seed = s.Str(5);
  auto fam = [&] { return WrapWithSeed(SHA256HashFamily(), seed); };
  auto a = SimpleHashTable::Create(fam(), buckets, k);
  auto b = MultipleChoiceHashTable::Create(fam(), buckets, k);
  REQUIRE(a.ok() && b.ok() == (k >= 2));
  int n = (int)s.Int(1, 40);
  uint64_t salt = s.Draw(1000);
  Table want(buckets);
  for (int i = 0; i < n; i++) {
    std::string x = std::to_string(salt * 1000 + i);
    for (int j = 0; j < k; j++) want[SHA256HashFunction(seed + std::to_string(j))(x, buckets)].push_back(x);
    REQUIRE((*a)->Insert(x).ok());
    if (k >= 2) {
      REQUIRE((*b)->Insert(x).ok());
      bool found = false;
      for (int j = 0; j < k; j++) {
        auto& bu = (*b)->GetTable()[SHA256HashFunction(seed + std::to_string(j))(x, buckets)];
        found |= std::find(bu.begin(), bu.end(), x) != bu.end();
      }
      REQUIRE(found);
    }
  }
  REQUIRE((*a)->GetTable() == want);
  // Defaults: one function for simple tables, two choices for the other.
  auto c = SimpleHashTable::Create(fam(), buckets);
  auto d = MultipleChoiceHashTable::Create(fam(), buckets);
  REQUIRE(c.ok() && (*c)->GetHashFunctions().size() == 1 && d.ok());
  s.NonTrivial(n > 1);
}

CASE(rejections, 6000, 60000) {
  int k = (int)s.Int(0, 3), buckets = (int)s.Int(-2, 3), limit = (int)s.Int(-2, 3);
  bool has = s.Bool(), multi = s.Bool();
  std::vector<HashFunction> fns;
  hm::Draw(s, k, &fns);
  absl::optional<int> l;
  if (has) l = limit;
  absl::Status st = multi ? MultipleChoiceHashTable::Create(std::move(fns), buckets, l).status()
                          : SimpleHashTable::Create(std::move(fns), buckets, l).status();
  NOTE(s, (multi ? "multiple choice" : "simple") << " functions=" << k << " buckets=" << buckets << " limit=" << (has ? std::to_string(limit) : "none"));
  bool bad = k < (multi ? 2 : 1) || buckets < 0 || (has && limit < 0);
  bool zero = buckets == 0 || (has && limit == 0);  // refused too, though only negative numbers are documented
  if (bad) REQUIRE(st.code() == absl::StatusCode::kInvalidArgument) << st;
  else if (!zero) REQUIRE(st.ok()) << st;
  else REQUIRE(st.ok() || st.code() == absl::StatusCode::kInvalidArgument) << st;
  s.NonTrivial(bad);
}

// The same at scale, compared at the end of the history.
CASE(large_histories, 120, 2500) {
  std::vector<HashFunction> fns, fns2;
  int k = (int)s.Small(2, 5), buckets = (int)(s.Chance(1, 4) ? s.Small(1, 12) : s.Small(1, 6000));
  auto model = hm::Draw(s, k, &fns);
  for (auto& f : model) fns2.push_back(f);
  absl::optional<int> limit, limit2;
  if (s.Bool()) limit = (int)s.Small(1, buckets <= 12 ? 1500 : 100);
  if (s.Bool()) limit2 = (int)s.Small(1, buckets <= 12 ? 1500 : 40);
  auto a = SimpleHashTable::Create(std::move(fns), buckets, limit);
  auto m = MultipleChoiceHashTable::Create(std::move(fns2), buckets, limit2);
  REQUIRE(a.ok() && m.ok());
  int n = (int)s.Small(100, 4000);
  size_t len = (size_t)(s.Bool() ? s.Small(1, 12) : s.Small(1, 3000));
  pbt::Rng rng{s.Draw(~0ull)};
  NOTE(s, hm::Show(model) << "buckets=" << buckets << " limits=" << limit.value_or(-1) << "," << limit2.value_or(-1) << " " << n << " insertions of up to " << len << " bytes");
  Table want(buckets), choice(buckets);
  for (int i = 0; i < n; i++) {
    std::string x = Src::Expand(rng.Next() | 1, rng.Next() % (len + 1));
    std::vector<int> at;
    size_t least = ~(size_t)0;
    for (auto& f : model) { at.push_back(f(x, buckets)); least = std::min(least, choice[at.back()].size()); }
    bool fits = true;
    if (limit) for (int b : at) fits &= (int)(want[b].size() + std::count(at.begin(), at.end(), b)) <= *limit;
    auto st = (*a)->Insert(x);
    REQUIRE(st.ok() == fits) << "simple table, insertion " << i << ": " << st;
    if (fits) for (int b : at) want[b].push_back(x);
    bool fits2 = !limit2 || (int)least < *limit2;
    auto st2 = (*m)->Insert(x);
    REQUIRE(st2.ok() == fits2) << "multiple-choice table, insertion " << i << " (least loaded choice holds " << least << "): " << st2;
    int grown = -1;
    for (int b : at) if ((*m)->GetTable()[b].size() != choice[b].size()) grown = b;
    REQUIRE((grown >= 0) == fits2) << "multiple-choice table, insertion " << i;
    if (grown < 0) continue;
    REQUIRE(choice[grown].size() == least) << "insertion " << i << " went to a bucket of " << choice[grown].size() << ", another choice held " << least;
    choice[grown].push_back(x);
  }
  REQUIRE((*a)->GetTable() == want) << "simple table differs";
  REQUIRE((*m)->GetTable() == choice) << "multiple-choice table differs";
  s.NonTrivial(Crowded(want));
}
