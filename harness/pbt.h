// Property-based testing core: choice-sequence generation, forked workers,
// crash capture, shrinking and replay.
//
// Every random decision of a case goes through a Src.  In search mode the Src
// draws from a PRNG seeded by (VERIF_SEED, sub-check, case index) and records
// the values drawn; in replay mode it returns recorded values (clamped to the
// range asked for, 0 when they run out).  A failing case is shrunk by editing
// the recorded sequence, so any generator shrinks without further code.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt {

typedef unsigned __int128 u128;

inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

struct Rng {
  uint64_t s;
  uint64_t Next() { s += 0x9e3779b97f4a7c15ull; return Mix(s); }
};

struct Failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Discard {};

// Shared-memory record of the choices of the case being run (survives crashes).
struct Trace {
  static constexpr size_t kMax = 1 << 20;
  volatile uint64_t subcheck;
  volatile uint64_t index;
  volatile uint64_t running;
  volatile uint64_t size;
  uint64_t v[kMax];
};

class Src {
 public:
  Src(uint64_t seed, Trace* t) : rng_{seed}, replay_(nullptr), t_(t) { t_->size = 0; }
  Src(const std::vector<uint64_t>* replay, Trace* t) : rng_{0}, replay_(replay), t_(t) { t_->size = 0; }

  // Uniform in [0, max].
  uint64_t Draw(uint64_t max) {
    return Put(max, [&] { return max == ~0ull ? rng_.Next() : rng_.Next() % (max + 1); });
  }
  // Uniform in [lo, hi].
  int64_t Int(int64_t lo, int64_t hi) { return lo + (int64_t)Draw((uint64_t)(hi - lo)); }
  // Biased towards lo: half of the draws fall into the lowest eighth or so.
  int64_t Small(int64_t lo, int64_t hi) {
    uint64_t max = (uint64_t)(hi - lo);
    return lo + (int64_t)Put(max, [&]() -> uint64_t {
      uint64_t m = max;
      int halvings = rng_.Next() % 5;
      for (int i = 0; i < halvings && m > 1; i++) m /= 2;
      return m == ~0ull ? rng_.Next() : rng_.Next() % (m + 1);
    });
  }
  bool Bool() { return Draw(1); }
  // True with probability num/den; false is the simple value.
  bool Chance(int num, int den) {
    return Put(1, [&]() -> uint64_t { return (int)(rng_.Next() % den) < num; });
  }
  template <typename T> const T& Pick(const std::vector<T>& v) { return v[Draw(v.size() - 1)]; }
  template <typename T> T Pick(std::initializer_list<T> v) { return *(v.begin() + Draw(v.size() - 1)); }

  // Integer in [0, max] with weight on the edges: 0, max, powers of two and
  // their neighbours, few-bit values, uniform values.
  uint64_t Edge(uint64_t max) {
    return Put(max, [&]() -> uint64_t {
      uint64_t r = rng_.Next(), v;
      auto uni = [&] { uint64_t n = rng_.Next(); return max == ~0ull ? n : n % (max + 1); };
      switch (r % 8) {
        case 0: v = 0; break;
        case 1: v = max; break;
        case 2: v = max - (rng_.Next() % 4); break;
        case 3: v = rng_.Next() % 4; break;
        case 4: { int b = rng_.Next() % 64; v = (1ull << b) + (rng_.Next() % 3) - 1; break; }
        default: v = uni();
      }
      return v <= max ? v : uni();
    });
  }
  u128 Edge128(u128 max) {
    if ((max >> 64) == 0) return Edge((uint64_t)max);
    uint64_t hi_max = (uint64_t)(max >> 64);
    uint64_t hi = Edge(hi_max);
    uint64_t lo = Edge(hi == hi_max ? (uint64_t)max : ~0ull);
    return ((u128)hi << 64) | lo;
  }
  u128 Uni128() { uint64_t hi = Draw(~0ull); return ((u128)hi << 64) | Draw(~0ull); }

  // One choice expanded into n pseudo-random bytes (choice 0 = all zero bytes).
  std::string Blob(size_t n) {
    uint64_t seed = Draw(~0ull);
    return Expand(seed, n);
  }
  static std::string Expand(uint64_t seed, size_t n) {
    std::string s(n, '\0');
    if (seed == 0) return s;
    Rng r{seed};
    for (size_t i = 0; i < n; i += 8) {
      uint64_t x = r.Next();
      memcpy(&s[i], &x, std::min<size_t>(8, n - i));
    }
    return s;
  }
  // Short string drawn byte by byte from an alphabet that provokes collisions
  // and embedded NULs.
  std::string Str(size_t max_len) {
    size_t n = Small(0, max_len);
    std::string s;
    static const char kAlpha[] = {'a', 'b', '\0', '\xff', '0', 'A'};
    bool wide = Chance(1, 3);
    for (size_t i = 0; i < n; i++)
      s += wide ? (char)Draw(255) : kAlpha[Draw(sizeof(kAlpha) - 1)];
    return s;
  }

  // Notes describe the case; shown for samples and failures only.
  bool noting = false;
  std::ostringstream notes;
  std::string notes_file;  // kept up to date, so that notes survive a crash
  void FlushNotes() {
    if (notes_file.empty()) return;
    if (FILE* f = fopen(notes_file.c_str(), "w")) { std::string t = notes.str(); fwrite(t.data(), 1, t.size(), f); fclose(f); }
  }

  // Statistics of the case.
  bool nontrivial = false;
  std::set<std::string> labels;
  void Label(const std::string& l) { labels.insert(l); }
  void NonTrivial(bool b = true) { nontrivial = nontrivial || b; }

  uint64_t Hash() const {
    uint64_t h = 0x1234567;
    for (size_t i = 0; i < t_->size && i < Trace::kMax; i++) h = Mix(h ^ t_->v[i]);
    return h;
  }

 private:
  template <typename F> uint64_t Put(uint64_t max, F f) {
    uint64_t v;
    size_t pos = t_->size;
    if (pos >= Trace::kMax) throw Discard();
    if (replay_) {
      v = pos < replay_->size() ? (*replay_)[pos] : 0;
      if (v > max) v = max == ~0ull ? v : v % (max + 1);
    } else {
      v = f();
    }
    t_->v[pos] = v;
    t_->size = pos + 1;
    return v;
  }
  Rng rng_;
  const std::vector<uint64_t>* replay_;
  Trace* t_;
};

#define NOTE(s, ...) do { if ((s).noting) { (s).notes << __VA_ARGS__ << "; "; (s).FlushNotes(); } } while (0)

class FailStream {
 public:
  FailStream(const char* f, int l, const char* c) {
    const char* base = strrchr(f, '/');
    o_ << (base ? base + 1 : f) << ":" << l << ": " << c << " ";
  }
  [[noreturn]] ~FailStream() noexcept(false) { throw Failure(o_.str()); }
  std::ostream& stream() { return o_; }
 private:
  std::ostringstream o_;
};
struct V { void operator&&(std::ostream&) const {} };
#define REQUIRE(c) \
  (c) ? (void)0 : ::pbt::V() && ::pbt::FailStream(__FILE__, __LINE__, #c).stream() << ": "
#define FAIL_CASE() ::pbt::V() && ::pbt::FailStream(__FILE__, __LINE__, "failed").stream() << ": "

inline std::string Hex(const std::string& s, size_t max = 64) {
  static const char d[] = "0123456789abcdef";
  std::string r;
  for (size_t i = 0; i < s.size() && i < max; i++) {
    r += d[(unsigned char)s[i] >> 4];
    r += d[s[i] & 15];
  }
  if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
  return r.empty() ? "<empty>" : r;
}
inline std::string Str128(u128 x) {
  if (x == 0) return "0";
  std::string r;
  while (x) { r.insert(r.begin(), char('0' + (int)(x % 10))); x /= 10; }
  return r;
}

struct SubCheck {
  const char* name;
  int quick, thorough;       // number of cases per tier
  std::function<void(Src&)> fn;
  bool isolated = false;     // each case in a process of its own
};
std::vector<SubCheck>& Registry();
struct Reg {
  Reg(const char* name, int quick, int thorough, std::function<void(Src&)> fn) {
    Registry().push_back({name, quick, thorough, std::move(fn)});
  }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// Defines a sub-check: CASE(name, quick cases, thorough cases) { ... uses s ... }
#define CASE(name, quick, thorough)                                     \
  static void PBT_CAT(name, _fn)(::pbt::Src & s);                       \
  static ::pbt::Reg PBT_CAT(name, _reg)(#name, quick, thorough, PBT_CAT(name, _fn)); \
  static void PBT_CAT(name, _fn)(::pbt::Src & s)

// A case of sizes beyond 2^31: run this many times whatever the scale, and not
// in sanitised builds.
bool StartHuge();
void EndHuge();
struct HugeEnd { ~HugeEnd() { EndHuge(); } };
#ifdef PBT_ASAN
constexpr bool kHuge = false;
#else
constexpr bool kHuge = true;
#endif
#define HUGE_CASE(name, quick, thorough)                                \
  static void PBT_CAT(name, _fn)(::pbt::Src & s);                       \
  static ::pbt::Reg PBT_CAT(name, _reg)(#name, ::pbt::kHuge ? -(quick) : 0, ::pbt::kHuge ? -(thorough) : 0, \
    [](::pbt::Src& s) {                                                 \
      ::pbt::HugeEnd end;                                               \
      if (::pbt::StartHuge()) PBT_CAT(name, _fn)(s);                    \
      else s.Label("left out: too little memory");                      \
    });                                                                 \
  static void PBT_CAT(name, _fn)(::pbt::Src & s)
// Bytes at position `at` of the pseudo-random string numbered `salt`.
inline uint64_t WordAt(uint64_t salt, uint64_t i) { uint64_t x = (salt | 1) * (i + 1); return x ^ (x >> 29) ^ (i << 7); }
inline char ByteAt(uint64_t salt, uint64_t at) { return (char)(WordAt(salt, at / 8) >> (at % 8 * 8)); }
inline void FillAt(uint64_t salt, char* p, size_t n) {
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { uint64_t w = WordAt(salt, i / 8); memcpy(p + i, &w, 8); }
  for (; i < n; i++) p[i] = ByteAt(salt, i);
}
// Positions in [0, n) worth looking at: around powers of two, the ends, random.
inline std::vector<uint64_t> Positions(Src& s, uint64_t n, int random) {
  std::set<uint64_t> r;
  auto add = [&](uint64_t x) { for (int d = -20; d <= 20; d++) if (x + d < n) r.insert(x + d); };
  add(0), add(n - 1);
  for (int b = 16; b < 40; b++) add(1ull << b), add((1ull << b) * 3);
  Rng g{s.Draw(~0ull)};
  for (int i = 0; i < random; i++) r.insert(g.Next() % n);
  return std::vector<uint64_t>(r.begin(), r.end());
}

// Set by each harness: what makes a case non-trivial, and what is assumed.
extern const char* const kRule;
extern const std::vector<std::string> kAssumptions;

// Whether a failure that replays do not show again counts (concurrency only).
bool& KeepUnreproduced();

// The library's source of randomness (BoringSSL's RAND_bytes) is replaced by a
// stream that the case seeds, so that runs replay.
void SeedRand(uint64_t seed);
// The calling thread gets a stream of its own, until EndThreadRand.
void SeedThreadRand(uint64_t seed);
void EndThreadRand();
// Number of bytes the library took from RAND_bytes since SeedRand.
uint64_t RandBytesUsed();
// Makes the call of RAND_bytes after `calls` further ones fail, once.
void FailRandAfter(int64_t calls);
// Until the next SeedRand, every second 16-byte block of the stream (the ones
// at even positions for 0, odd ones for 1) is a constant.
void HalfRand(int which);
// Number of calls that failed so far.
uint64_t RandFailures();

}  // namespace pbt
#endif
