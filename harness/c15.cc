// C15: the cuckoo table holds every element exactly once, in a bucket one of
// its hash functions names or on the bounded stash, along any insertion history.
// LIBS: hashing
#include <algorithm>
#include <map>
#include <set>

#include "hash_model.h"
#include "pbt.h"
#include "pir/hashing/cuckoo_hash_table.h"
using namespace distributed_point_functions;
using pbt::Src;

const char* const pbt::kRule =
    "A case draws 2-5 hash functions (well mixed, colliding, constant, equal to each other, SHA-256 or FarmHash), a table "
    "of 1-60 buckets, a relocation limit, a stash limit or none, and a history of up to 3x buckets insertions (with "
    "duplicates and empty strings), and checks the whole table after every insertion against a multiset model. "
    "Non-trivial: an insertion evicted an element or used the stash.";
const std::vector<std::string> pbt::kAssumptions = {};

typedef std::map<std::string, int> Bag;
static Bag Contents(const CuckooHashTable& t) {
  Bag b;
  for (auto& e : t.GetTable()) if (e) b[*e]++;
  for (auto& e : t.GetStash()) b[e]++;
  return b;
}

CASE(histories, 25000, 400000) {
  std::vector<HashFunction> fns;
  int k = (int)s.Small(2, 5);
  std::vector<hm::Fn> model = hm::Draw(s, k, &fns);
  int buckets = (int)s.Small(1, 60);
  int reloc = (int)(s.Bool() ? s.Int(0, 4) : s.Int(1, 100));
  absl::optional<int> stash;
  if (s.Bool()) stash = (int)s.Small(0, 8);
  NOTE(s, hm::Show(model) << "buckets=" << buckets << " relocations=" << reloc << " stash=" << (stash ? std::to_string(*stash) : "unlimited"));
  auto r = CuckooHashTable::Create(std::move(fns), buckets, reloc, stash);
  REQUIRE(r.ok()) << r.status();
  CuckooHashTable& t = **r;
  REQUIRE((int)t.GetTable().size() == buckets);
  REQUIRE((int)t.GetHashFunctions().size() == k);
  Bag bag;
  int n = (int)s.Small(1, 3 * buckets + 3);
  std::vector<std::string> used;
  bool evicted = false, stashed = false;
  for (int i = 0; i < n; i++) {
    std::string x;
    if (!used.empty() && s.Chance(1, 8)) x = s.Pick(used);
    else x = s.Chance(1, 20) ? s.Str(5) : "k" + std::to_string(s.Draw(1000000));
    used.push_back(x);
    auto before = t.GetTable();
    auto stash_before = t.GetStash();
    absl::Status st = t.Insert(x);
    NOTE(s, "insert " << pbt::Hex(x) << (st.ok() ? "" : " refused"));
    // Every element sits in one of its buckets.
    const auto& tab = t.GetTable();
    REQUIRE((int)tab.size() == buckets);
    for (int b = 0; b < buckets; b++) {
      if (!tab[b]) { REQUIRE(!before[b]) << "bucket " << b << " became empty"; continue; }
      bool named = false;
      for (auto& f : model) named |= f(*tab[b], buckets) == b;
      REQUIRE(named) << "element " << pbt::Hex(*tab[b]) << " in bucket " << b << " which none of its hash functions names";
      evicted |= before[b] && *before[b] != *tab[b];
    }
    // The relocation limit bounds the work, and only its exhaustion leads to the stash.
    int changed = 0;
    for (int b = 0; b < buckets; b++) changed += !(before[b] == tab[b]);
    REQUIRE(changed <= reloc) << "one insertion changed " << changed << " buckets";
    bool all_free = reloc >= 1;
    for (auto& f : model) all_free &= !before[f(x, buckets)];
    if (all_free) {
      s.Label("all its buckets free");
      int at = 0;
      for (auto& f : model) { int b = f(x, buckets); at += tab[b] && *tab[b] == x; }
      REQUIRE(st.ok() && changed == 1 && at >= 1 && t.GetStash() == stash_before) << "not stored in one of its buckets although all are free: " << st;
    }
    if (stash) REQUIRE((int)t.GetStash().size() <= *stash) << "stash exceeds its limit";
    stashed |= !t.GetStash().empty();
    // Nothing leaves the stash.
    for (size_t j = 0; j < stash_before.size(); j++)
      REQUIRE(j < t.GetStash().size() && std::count(t.GetStash().begin(), t.GetStash().end(), stash_before[j]) >= std::count(stash_before.begin(), stash_before.end(), stash_before[j]));
    Bag now = Contents(t);
    bag[x]++;
    if (st.ok()) {
      REQUIRE(now == bag) << "after " << i + 1 << " insertions the table does not hold what was inserted";
    } else {
      REQUIRE(st.code() == absl::StatusCode::kInternal) << st;
      REQUIRE(stash && (int)t.GetStash().size() == *stash) << "refused although the stash has room: " << st;
      // Exactly one element is left out.
      int missing = 0;
      for (auto& e : bag) {
        int d = e.second - (now.count(e.first) ? now[e.first] : 0);
        REQUIRE(d >= 0);
        missing += d;
      }
      for (auto& e : now) REQUIRE(bag.count(e.first)) << "unknown element";
      REQUIRE(missing == 1) << missing << " elements lost by a refused insertion";
      bag = now;
      s.Label("refused");
    }
  }
  s.NonTrivial(evicted || stashed);
  if (evicted) s.Label("evictions");
  if (stashed) s.Label("stash used");
  // The table's own hash functions are those given.
  std::string probe = s.Str(6);
  for (int i = 0; i < k; i++) REQUIRE(t.GetHashFunctions()[i](probe, buckets) == model[i](probe, buckets));
}

// Deterministic: the same history gives the same table; built from a family too.
CASE(reproducible, 4000, 60000) {
  int k = (int)s.Int(2, 4), buckets = (int)s.Int(1, 200), reloc = (int)s.Int(1, 200);
  std::string seed = s.Str(5);
  auto make = [&] { return CuckooHashTable::Create(WrapWithSeed(SHA256HashFamily(), seed), buckets, k, reloc); };
  auto a = make(), b = make();
  REQUIRE(a.ok() && b.ok());
  int n = (int)s.Int(0, buckets + 5);
  uint64_t salt = s.Draw(1000);
  for (int i = 0; i < n; i++) {
    std::string x = std::to_string(salt * 1000 + i);
    REQUIRE((*a)->Insert(x).ok() && (*b)->Insert(x).ok()) << "an unlimited stash refused an element";
  }
  REQUIRE((*a)->GetTable() == (*b)->GetTable() && (*a)->GetStash() == (*b)->GetStash());
  // At a load of one half a third hash function leaves the stash empty, given enough relocations.
  if (k >= 3 && buckets >= 50 && n <= buckets / 2 && reloc >= 100)
    REQUIRE((*a)->GetStash().empty()) << "half-full table spilled to the stash";
  for (int b2 = 0; b2 < buckets; b2++) {
    auto& e = (*a)->GetTable()[b2];
    if (!e) continue;
    bool named = false;
    for (int i = 0; i < k; i++) named |= SHA256HashFunction(seed + std::to_string(i))(*e, buckets) == b2;
    REQUIRE(named) << "function family seeded differently";
  }
  s.NonTrivial(n > 1);
}

CASE(rejections, 5000, 50000) {
  int k = (int)s.Int(0, 4), buckets = (int)s.Int(-2, 4), reloc = (int)s.Int(-2, 3);
  bool has_stash = s.Bool();
  int stash = (int)s.Int(-2, 2);
  std::vector<HashFunction> fns;
  hm::Draw(s, k, &fns);
  auto r = CuckooHashTable::Create(std::move(fns), buckets, reloc, has_stash ? absl::optional<int>(stash) : absl::optional<int>());
  bool ok = k >= 2 && buckets > 0 && reloc >= 0 && (!has_stash || stash >= 0);
  NOTE(s, "functions=" << k << " buckets=" << buckets << " relocations=" << reloc << " stash=" << (has_stash ? std::to_string(stash) : "none"));
  REQUIRE(r.ok() == ok) << r.status();
  if (!ok) REQUIRE(r.status().code() == absl::StatusCode::kInvalidArgument) << r.status();
  s.NonTrivial(!ok);
}

// The same at scale: thousands of insertions, long elements, checked at the end
// and at a few points on the way.
CASE(large_histories, 25, 500) {
  std::vector<HashFunction> fns;
  int k = (int)s.Small(2, 5);
  std::vector<hm::Fn> model = hm::Draw(s, k, &fns);
  int buckets = (int)s.Small(60, 6000), reloc = (int)s.Int(1, 1000);
  absl::optional<int> stash;
  if (s.Bool()) stash = (int)s.Small(0, 400);
  auto r = CuckooHashTable::Create(std::move(fns), buckets, reloc, stash);
  REQUIRE(r.ok()) << r.status();
  CuckooHashTable& t = **r;
  int n = (int)s.Int(1, buckets + buckets / 8), checks = (int)s.Int(1, 4);
  size_t len = (size_t)(s.Bool() ? s.Small(1, 12) : s.Small(1, 3000));
  pbt::Rng rng{s.Draw(~0ull)};
  NOTE(s, hm::Show(model) << "buckets=" << buckets << " relocations=" << reloc << " stash=" << (stash ? std::to_string(*stash) : "unlimited") << ", " << n << " insertions of up to " << len << " bytes");
  Bag bag;
  int refused = 0;
  bool moved = false;
  for (int i = 0; i < n; i++) {
    std::string x = Src::Expand(rng.Next() | 1, rng.Next() % (len + 1));
    absl::Status st = t.Insert(x);
    bag[x]++;
    if (!st.ok()) {
      REQUIRE(stash && (int)t.GetStash().size() == *stash) << "insertion " << i << " refused although the stash has room: " << st;
      REQUIRE(st.code() == absl::StatusCode::kInternal) << st;
      refused++;
    }
    if (i % (n / checks + 1) != 0 && i + 1 < n) continue;
    REQUIRE((int)t.GetTable().size() == buckets);
    for (int b = 0; b < buckets; b++) {
      if (!t.GetTable()[b]) continue;
      bool named = false;
      for (auto& f : model) named |= f(*t.GetTable()[b], buckets) == b;
      REQUIRE(named) << "after " << i + 1 << " insertions: the element in bucket " << b << " is not named there by any hash function";
      moved |= model[0](*t.GetTable()[b], buckets) != b;
    }
    if (stash) REQUIRE((int)t.GetStash().size() <= *stash) << "stash exceeds its limit";
    Bag now = Contents(t);
    int missing = 0;
    for (auto& e : bag) { auto it = now.find(e.first); int d = e.second - (it == now.end() ? 0 : it->second); REQUIRE(d >= 0) << "an element is held more often than it was inserted"; missing += d; }
    for (auto& e : now) REQUIRE(bag.count(e.first)) << "unknown element";
    REQUIRE(missing == refused) << "after " << i + 1 << " insertions, " << refused << " of them refused, " << missing << " elements are missing";
  }
  s.NonTrivial(moved);
}
