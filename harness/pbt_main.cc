#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <fstream>
#include <unordered_set>

#include "pbt.h"

namespace pbt {
std::vector<SubCheck>& Registry() {
  static std::vector<SubCheck> r;
  return r;
}

static Rng g_rand{1};
static uint64_t g_rand_used = 0;
void FailRandAfter(int64_t calls);
static int g_half = -1;
void SeedRand(uint64_t seed) { g_rand.s = Mix(seed ^ 0xabcdef); g_rand_used = 0; g_half = -1; FailRandAfter(-1); }
void HalfRand(int which) { g_half = which; }
uint64_t RandBytesUsed() { return g_rand_used; }
static int64_t g_fail_in = -1;
static uint64_t g_failed = 0;
void FailRandAfter(int64_t calls) { g_fail_in = calls; }
uint64_t RandFailures() { return g_failed; }
static thread_local Rng t_rand{0};
static thread_local bool t_rand_set = false;
bool& KeepUnreproduced() { static bool b = false; return b; }
void SeedThreadRand(uint64_t seed) { t_rand.s = Mix(seed ^ 0x1234567); t_rand_set = true; }
void EndThreadRand() { t_rand_set = false; }
}  // namespace pbt

// Interposes BoringSSL's generator (see pbt.h).
extern "C" int RAND_bytes(uint8_t* buf, size_t len) {
  const bool own = pbt::t_rand_set;
  if (!own && pbt::g_fail_in == 0) {
    pbt::g_fail_in = -1;
    pbt::g_failed++;
    return 0;
  }
  if (!own) {
    if (pbt::g_fail_in > 0) pbt::g_fail_in--;
    pbt::g_rand_used += len;
  }
  const uint64_t start = pbt::g_rand_used - len;
  size_t i = 0;
  while (i < len) {
    uint64_t x = own ? pbt::t_rand.Next() : pbt::g_rand.Next();
    size_t n = std::min<size_t>(8, len - i);
    memcpy(buf + i, &x, n);
    i += n;
  }
  if (!own && pbt::g_half >= 0) {
    for (size_t j = 0; j < len; j++) if ((int)((start + j) / 16 & 1) == pbt::g_half) buf[j] = 0x5a;
  }
  return 1;
}

#ifndef PBT_FUZZER
namespace {
using namespace pbt;

constexpr int kCpuSecondsPerCase = 30;

// Result of one run of one case, in shared memory.
struct Outcome {
  volatile int status;  // 0 = not finished, 1 = pass, 2 = fail, 3 = discard
  char msg[4096];
};

uint64_t TraceLen(const Trace* t) { uint64_t n = t->size; return n < Trace::kMax ? n : Trace::kMax; }
uint64_t NameHash(const std::string& s) {
  uint64_t h = 99;
  for (char c : s) h = Mix(h ^ (unsigned char)c);
  return h;
}
uint64_t CaseSeed(uint64_t seed, const SubCheck& c, uint64_t i) {
  return Mix(Mix(Mix(seed) ^ NameHash(c.name)) + i);
}

template <typename T> T* Shared() {
  void* p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return static_cast<T*>(p);
}

void OnCpuTimeout(int) {
  static const char m[] = "pbt: case exceeded its CPU limit (does not terminate)\n";
  (void)!write(2, m, sizeof(m) - 1);
  _exit(97);
}
void ArmTimer(int seconds) {
  itimerval t{};
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}

std::string g_dir;  // scratch directory

}  // namespace
namespace pbt {
// Huge cases run one at a time, and only where the machine has the room.
static int g_huge_lock = -1;
static void LimitMemory(int gib) {
#ifndef PBT_ASAN
  rlimit as{(rlim_t)gib << 30, RLIM_INFINITY};
  setrlimit(RLIMIT_AS, &as);
#endif
}
bool StartHuge() {
  g_huge_lock = open((g_dir + "/huge.lock").c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0644);
  if (g_huge_lock >= 0) flock(g_huge_lock, LOCK_EX);
  uint64_t kb = 0;
  std::ifstream f("/proc/meminfo");
  for (std::string l; std::getline(f, l);)
    if (l.rfind("MemAvailable:", 0) == 0) kb = strtoull(l.c_str() + 13, nullptr, 10);
  if (kb < 16ull << 20) return false;
  ArmTimer(400);
  LimitMemory(26);
  return true;
}
void EndHuge() {
  if (g_huge_lock < 0) return;
  close(g_huge_lock);
  g_huge_lock = -1;
  LimitMemory(6);
}
}  // namespace pbt
namespace {

// Runs a case in this process. Returns status, fills msg.
int RunCase(const SubCheck& c, Src& s, std::string* msg) {
  SeedRand(1);
  ArmTimer(kCpuSecondsPerCase);
  int st = 1;
  try {
    c.fn(s);
  } catch (const Failure& f) {
    st = 2;
    *msg = f.what();
  } catch (const Discard&) {
    st = 3;
  } catch (const std::exception& e) {
    st = 2;
    *msg = std::string("exception escaped: ") + e.what();
  }
  ArmTimer(0);
  return st;
}

std::string Tail(const std::string& file) {
  std::ifstream f(file);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string t = ss.str();
  // Prefer the line that states the error.
  for (const char* key : {"Check failed", "ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "runtime error", "Assertion", "terminate called", "what():", "pbt: case", "libprotobuf FATAL"}) {
    size_t p = t.find(key);
    if (p != std::string::npos) {
      size_t b = t.rfind('\n', p);
      b = b == std::string::npos ? 0 : b + 1;
      size_t e = t.find('\n', p);
      return t.substr(b, std::min<size_t>(e - b, 400));
    }
  }
  return t.size() > 300 ? t.substr(t.size() - 300) : t;
}


void RedirectOutput(const std::string& file) {
  int fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}

void ChildLimits() {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  signal(SIGPROF, OnCpuTimeout);
  rlimit core{0, 0};
  setrlimit(RLIMIT_CORE, &core);
#ifndef PBT_ASAN
  rlimit as{6ull << 30, RLIM_INFINITY};
  setrlimit(RLIMIT_AS, &as);
#endif
}

// Cases (sub-check index, case seed) to run in the same process before the one
// that fails, when the failure depends on state left behind by earlier cases.
typedef std::vector<std::pair<int, uint64_t>> History;
History g_history;

// Runs one choice sequence in a child. Returns true if it fails.
bool Attempt(const SubCheck& c, const std::vector<uint64_t>& choices, Trace* t, Outcome* o,
             std::string* msg, std::vector<uint64_t>* used, std::string* notes) {
  o->status = 0;
  o->msg[0] = 0;
  std::string log = g_dir + "/attempt.log", nf = g_dir + "/attempt.notes";
  unlink(nf.c_str());
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    RedirectOutput(log);
    ChildLimits();
    for (auto& h : g_history) {
      Src s(h.second, t);
      std::string m;
      RunCase(Registry()[h.first], s, &m);
    }
    Src s(&choices, t);
    s.noting = notes != nullptr;
    if (notes) s.notes_file = nf;
    std::string m;
    int st = RunCase(c, s, &m);
    snprintf(o->msg, sizeof(o->msg), "%s", m.c_str());
    s.FlushNotes();
    o->status = st;
    _exit(0);
  }
  int ws = 0;
  waitpid(p, &ws, 0);
  used->assign(t->v, t->v + TraceLen(t));
  if (notes) {
    std::ifstream f(nf);
    std::stringstream ss;
    ss << f.rdbuf();
    *notes = ss.str();
  }
  if (o->status == 1 || o->status == 3) return false;
  if (o->status == 2) { *msg = o->msg; return true; }
  *msg = "crashed (" + std::string(WIFSIGNALED(ws) ? "signal " + std::to_string(WTERMSIG(ws)) : "exit " + std::to_string(WEXITSTATUS(ws))) + "): " + Tail(log);
  return true;
}

std::vector<uint64_t> Shrink(const SubCheck& c, std::vector<uint64_t> best, Trace* t, Outcome* o, std::string* msg, int* attempts) {
  auto start = std::chrono::steady_clock::now();
  auto spent = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count(); };
  auto less = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  auto tryit = [&](const std::vector<uint64_t>& cand) {
    if (*attempts > 3000 || spent() > 60) return false;
    ++*attempts;
    std::string m;
    std::vector<uint64_t> used;
    if (!Attempt(c, cand, t, o, &m, &used, nullptr)) return false;
    while (!used.empty() && used.back() == 0) used.pop_back();
    if (!less(used, best)) return false;
    best = used;
    *msg = m;
    return true;
  };
  bool improved = true;
  while (improved && *attempts < 3000 && spent() < 60) {
    improved = false;
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= best.size();) {
        std::vector<uint64_t> cand = best;
        cand.erase(cand.begin() + i, cand.begin() + i + len);
        if (tryit(cand)) improved = true; else i += len;
        if (spent() > 60) break;
      }
      if (len == 1) break;
    }
    for (size_t len : {16, 4, 1}) {
      for (size_t i = 0; i + len <= best.size(); i += len) {
        bool any = false;
        for (size_t j = i; j < i + len; j++) any |= best[j] != 0;
        if (!any) continue;
        std::vector<uint64_t> cand = best;
        std::fill(cand.begin() + i, cand.begin() + i + len, 0);
        if (tryit(cand)) improved = true;
      }
    }
    for (size_t i = 0; i < best.size(); i++) {
      uint64_t lo = 0, hi = best[i];  // find the smallest failing value
      if (hi == 0) continue;
      for (int k = 0; k < 66 && lo < hi && i < best.size(); k++) {
        uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> cand = best;
        cand[i] = mid;
        if (tryit(cand)) { improved = true; hi = mid; } else lo = mid + 1;
        if (spent() > 60) break;
      }
    }
  }
  return best;
}

struct WorkerStats {
  static constexpr int kLabels = 64;
  uint64_t evals, nontrivial, discards;
  uint64_t label_count[kLabels];
  char label[kLabels][56];
};

void AddLabel(WorkerStats* w, const std::string& l) {
  for (int i = 0; i < WorkerStats::kLabels; i++) {
    if (w->label[i][0] == 0) snprintf(w->label[i], sizeof(w->label[i]), "%s", l.c_str());
    if (l.compare(0, sizeof(w->label[i]) - 1, w->label[i]) == 0) { w->label_count[i]++; return; }
  }
}

std::string JsonStr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", ch); r += b; }
    else r += (char)ch;
  }
  return r + "\"";
}

const char* Arg(int argc, char** argv, const char* name, const char* def) {
  for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], name)) return argv[i + 1];
  return def;
}
}  // namespace

// Usage: harness --seed N --tier quick|thorough --out result.json --dir scratch
//        [--only substring] [--scale percent] [--workers N]
//        harness --replay file --dir scratch
// Exit 0: all cases passed; 1: a failure (described in the result file); else error.
int main(int argc, char** argv) {
  // The same addresses in every run, where the system allows it: what a run
  // does then depends on the code and the seed alone.
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && getenv("PBT_EXECED") == nullptr) {
    setenv("PBT_EXECED", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  uint64_t seed = strtoull(Arg(argc, argv, "--seed", "1"), nullptr, 10);
  bool thorough = !strcmp(Arg(argc, argv, "--tier", "quick"), "thorough");
  std::string out = Arg(argc, argv, "--out", "");
  g_dir = Arg(argc, argv, "--dir", "/tmp");
  std::string only = Arg(argc, argv, "--only", "");
  int scale = atoi(Arg(argc, argv, "--scale", "100"));
  int nw = atoi(Arg(argc, argv, "--workers", "8"));
  std::string replay = Arg(argc, argv, "--replay", "");
  // Wall-clock limit, a safety net for slow machines: sub-check k of n stops at (k+1)/n of it.
  double budget = atof(Arg(argc, argv, "--budget", "100000"));
  int rerun = -1, rerun_sub = 0;
  unsigned long long rerun_idx_ = 0;
  sscanf(Arg(argc, argv, "--rerun", ""), "%d,%d,%llu", &rerun, &rerun_sub, &rerun_idx_);
  const uint64_t rerun_idx = rerun_idx_;
  if (rerun >= nw || rerun >= 64) return 2;
  // Runs worker `w` again in a fresh process, up to and including case `idx`
  // of sub-check `sub`.
  auto again = [&](uint64_t w, int sub, uint64_t idx, const std::string& args) {
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      std::string where = std::to_string(w) + "," + std::to_string(sub) + "," + std::to_string(idx);
      std::vector<std::string> a = {argv[0], "--dir", g_dir, "--rerun", where};
      if (!out.empty()) a.insert(a.end(), {"--out", out});
      std::istringstream is(args);
      for (std::string x; is >> x;) a.push_back(x);
      std::vector<char*> av;
      for (auto& x : a) av.push_back(&x[0]);
      av.push_back(nullptr);
      if (replay.empty()) RedirectOutput(g_dir + "/again.log");
      execv("/proc/self/exe", av.data());
      _exit(2);
    }
    int ws;
    waitpid(p, &ws, 0);
    return WIFEXITED(ws) && WEXITSTATUS(ws) == 1;
  };
  Trace* t0 = Shared<Trace>();
  Outcome* o = Shared<Outcome>();

  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string line, sub;
    std::vector<uint64_t> ch;
    auto find = [](const std::string& n) { for (size_t k = 0; k < Registry().size(); k++) if (n == Registry()[k].name) return (int)k; return 0; };
    while (std::getline(f, line)) {
      if (line.rfind("subcheck ", 0) == 0) sub = line.substr(9);
      if (line.rfind("before ", 0) == 0) {
        std::istringstream is(line.substr(7));
        std::string n;
        uint64_t x;
        if (is >> n >> x) g_history.push_back({find(n), x});
      }
      if (line.rfind("again ", 0) == 0) {
        std::istringstream is(line.substr(6));
        uint64_t w, sb, ix;
        std::string rest;
        is >> w >> sb >> ix;
        std::getline(is, rest);
        return again(w, (int)sb, ix, rest) ? 1 : 0;
      }
      if (line.rfind("choices", 0) == 0) {
        std::istringstream is(line.substr(7));
        uint64_t x;
        while (is >> x) ch.push_back(x);
      }
    }
    for (auto& c : Registry()) {
      if (sub != c.name) continue;
      std::string msg, notes;
      std::vector<uint64_t> used;
      bool bad = Attempt(c, ch, t0, o, &msg, &used, &notes);
      printf("case: %s\n", notes.c_str());
      printf(bad ? "FAILS: %s\n" : "passes %s\n", msg.c_str());
      return bad ? 1 : 0;
    }
    fprintf(stderr, "unknown sub-check in %s\n", replay.c_str());
    return 2;
  }

  std::string corpus = Arg(argc, argv, "--corpus", ""), shrink = Arg(argc, argv, "--shrink", "");
  if (!corpus.empty()) {
    for (size_t k = 0; k < Registry().size() && k < 256; k++)
      for (int i = 0; i < 24 && Registry()[k].thorough > 0; i++) {
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
          RedirectOutput(g_dir + "/corpus.log");
          ChildLimits();
          std::string m;
          Src s(CaseSeed(seed + 7777, Registry()[k], i), t0);
          int st = RunCase(Registry()[k], s, &m);
          _exit(st == 1 ? 0 : 1);
        }
        int ws;
        waitpid(p, &ws, 0);
        if (!WIFEXITED(ws) || WEXITSTATUS(ws) != 0 || TraceLen(t0) > 4000) continue;
        std::ofstream f(corpus + "/" + std::to_string(k) + "_" + std::to_string(i), std::ios::binary);
        f << (char)k;
        for (size_t j = 0; j < TraceLen(t0); j++) {
          uint64_t x = t0->v[j];
          do { f << (char)((x & 0x7f) | (x > 0x7f ? 0x80 : 0)); x >>= 7; } while (x);
        }
      }
    return 0;
  }
  if (!shrink.empty()) {
    // A failing sequence in the encoding of the fuzzer, made small.
    std::ifstream f(shrink, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    std::string b = ss.str();
    if (b.empty()) return 0;
    const SubCheck& c = Registry()[(uint8_t)b[0] % Registry().size()];
    std::vector<uint64_t> ch;
    for (size_t i = 1; i < b.size();) {
      uint64_t x = 0;
      int sh = 0;
      while (i < b.size()) {
        uint8_t v = b[i++];
        if (sh < 64) x |= (uint64_t)(v & 0x7f) << sh;
        sh += 7;
        if (!(v & 0x80)) break;
      }
      ch.push_back(x);
    }
    std::string msg, notes, m;
    std::vector<uint64_t> used;
    if (!Attempt(c, ch, t0, o, &msg, &used, nullptr)) return 0;
    int attempts = 0;
    ch = Shrink(c, ch, t0, o, &msg, &attempts);
    Attempt(c, ch, t0, o, &m, &used, &notes);
    for (char& x : msg) if (x == '\n') x = ' ';
    for (char& x : notes) if (x == '\n') x = ' ';
    std::ofstream r(g_dir + "/failure.txt");
    r << "subcheck " << c.name << "\nmessage " << msg << "\ncase " << notes << "\nchoices";
    for (uint64_t x : ch) r << " " << x;
    r << "\n";
    return 1;
  }
  auto start = std::chrono::steady_clock::now();
  struct Fail { int sub; uint64_t idx; std::string first; };
  struct FailSlot { volatile int used; volatile int sub; volatile uint64_t idx; char msg[600]; };
  struct Ctl { volatile int stop, over_budget; FailSlot slot[64]; };
  Ctl* ctl = Shared<Ctl>();
  std::vector<Trace*> traces;
  std::vector<WorkerStats*> stats;  // [worker * nsub + sub]
  auto& subs = Registry();
  const int ns = subs.size();
  struct Hashes { volatile uint64_t n; uint64_t h[1 << 21]; };
  std::vector<Hashes*> hashes;
  for (int w = 0; w < nw; w++) {
    traces.push_back(Shared<Trace>());
    hashes.push_back(Shared<Hashes>());
    for (int k = 0; k < ns; k++) stats.push_back(Shared<WorkerStats>());
  }
  auto count = [&](int k) -> uint64_t {
    if (!only.empty() && std::string(subs[k].name).find(only) == std::string::npos) return 0;
    int n = thorough ? subs[k].thorough : subs[k].quick;
    if (n <= 0) return -n;
    return std::max<uint64_t>(1, (uint64_t)n * scale / 100);
  };
  std::vector<pid_t> pids(nw, 0);
  std::vector<std::string> samples;
  auto work = [&](int w, int from_sub, uint64_t from_idx) {
    pid_t p = fork();
    if (p) return p;
    RedirectOutput(g_dir + "/worker" + std::to_string(w) + ".log");
    ChildLimits();
    Trace* t = traces[w];
    for (int k = from_sub; k < ns; k++) {
      uint64_t n = count(k);
      if (rerun >= 0 && k >= rerun_sub) n = k > rerun_sub ? 0 : std::min(n, rerun_idx + 1);
      for (uint64_t i = (k == from_sub && from_idx != ~0ull) ? from_idx : (uint64_t)w; i < n; i += nw) {
        if (ctl->stop) _exit(0);
        if ((i / nw) % 16 == 0 &&
            std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > budget * (k + 1) / ns) {
          ctl->over_budget = 1;
          break;
        }
        t->subcheck = k;
        t->index = i;
        t->running = 1;
        Src s(CaseSeed(seed, subs[k], i), t);
        std::string msg;
        int st = RunCase(subs[k], s, &msg);
        t->running = 0;
        WorkerStats* ws = stats[w * ns + k];
        ws->evals++;
        if (st == 3) ws->discards++;
        if (st == 1 && s.nontrivial) {
          ws->nontrivial++;
          Hashes* hs = hashes[w];
          if (hs->n < (1 << 21)) { hs->h[hs->n] = Mix(s.Hash() + k); hs->n = hs->n + 1; }
        }
        for (auto& l : s.labels) AddLabel(ws, l);
        if (st == 2) {
          ctl->stop = 1;
          ctl->slot[w].sub = k;
          ctl->slot[w].idx = i;
          snprintf(ctl->slot[w].msg, sizeof(ctl->slot[w].msg), "%s", msg.c_str());
          ctl->slot[w].used = 1;
          _exit(0);
        }
      }
    }
    _exit(0);
  };
  if (nw > 64) nw = 64;
  if (rerun >= 0) {
    // One worker again, from the same state as the first time.
    int ws;
    waitpid(work(rerun, 0, ~0ull), &ws, 0);
    bool bad = !(WIFEXITED(ws) && WEXITSTATUS(ws) == 0) || ctl->slot[rerun].used;
    printf("%s %s\n", bad ? "FAILS" : "passes", ctl->slot[rerun].msg);
    return bad ? 1 : 0;
  }
  for (int w = 0; w < nw; w++) pids[w] = work(w, 0, ~0ull);
  std::vector<Fail> fails;
  for (int w = 0; w < nw; w++) {
    int ws;
    while (waitpid(pids[w], &ws, 0) < 0 && errno == EINTR) {}
    if (!(WIFEXITED(ws) && WEXITSTATUS(ws) == 0)) {
      ctl->stop = 1;
      if (traces[w]->running) fails.push_back({(int)traces[w]->subcheck, traces[w]->index, "crashed: " + Tail(g_dir + "/worker" + std::to_string(w) + ".log")});
      else { fprintf(stderr, "worker %d died outside a case: %s\n", w, Tail(g_dir + "/worker" + std::to_string(w) + ".log").c_str()); return 2; }
    } else if (ctl->slot[w].used) {
      fails.push_back({ctl->slot[w].sub, ctl->slot[w].idx, std::string(ctl->slot[w].msg)});
    }
  }

  // Collect coverage.
  uint64_t evals = 0, disc = 0;
  std::unordered_set<uint64_t> distinct;
  for (auto* h : hashes) for (uint64_t i = 0; i < h->n; i++) distinct.insert(h->h[i]);
  std::ostringstream js, subjs;
  std::vector<std::string> sub_entries;
  for (int k = 0; k < ns; k++) {
    uint64_t e = 0, nt = 0, d = 0;
    std::map<std::string, uint64_t> labels;
    for (int w = 0; w < nw; w++) {
      WorkerStats* s = stats[w * ns + k];
      e += s->evals; nt += s->nontrivial; d += s->discards;
      for (int i = 0; i < WorkerStats::kLabels && s->label[i][0]; i++) labels[s->label[i]] += s->label_count[i];
    }
    evals += e; disc += d;
    if (e == 0) continue;
    std::ostringstream x;
    x << JsonStr(subs[k].name) << ": {\"evaluations\": " << e << ", \"nontrivial\": " << nt << ", \"discarded\": " << d << ", \"labels\": {";
    bool first = true;
    for (auto& l : labels) { x << (first ? "" : ", ") << JsonStr(l.first) << ": " << l.second; first = false; }
    x << "}}";
    sub_entries.push_back(x.str());
    // A sample: re-run the first non-trivial of a few cases with notes on.
    if (subs[k].thorough < 0) {
      samples.push_back(std::string(subs[k].name) + ": (not repeated for a sample)");
    } else if (fails.empty()) {
      std::string text;
      for (uint64_t i = 0; i < std::min<uint64_t>(count(k), 6); i++) {
        std::string nf = g_dir + "/sample.notes";
        unlink(nf.c_str());
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
          RedirectOutput(g_dir + "/sample.log");
          ChildLimits();
          Src s(CaseSeed(seed, subs[k], i), t0);
          s.noting = true;
          std::string m;
          RunCase(subs[k], s, &m);
          std::ofstream f(nf);
          f << s.notes.str().substr(0, 700);
          f.close();
          _exit(s.nontrivial ? 0 : 9);
        }
        int ws;
        waitpid(p, &ws, 0);
        std::ifstream f(nf);
        std::stringstream ss;
        ss << f.rdbuf();
        text = ss.str();
        if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0) break;
      }
      samples.push_back(std::string(subs[k].name) + ": " + text);
    }
  }
  // Failure handling.
  int rc = 0;
  std::string viol;
  if (!fails.empty() && getenv("PBT_NO_SHRINK")) return 1;
  if (!fails.empty()) {
    std::sort(fails.begin(), fails.end(), [](const Fail& a, const Fail& b) { return std::make_pair(a.sub, a.idx) < std::make_pair(b.sub, b.idx); });
    Fail f = fails[0];
    const SubCheck& c = subs[f.sub];
    // Reproduce from the seed to get the choice sequence.
    std::string msg, notes, m;
    std::vector<uint64_t> choices;
    bool reproduced = false;
    // The crashed or failed worker's own record of the choices.
    for (int w = 0; w < nw; w++)
      if ((int)traces[w]->subcheck == f.sub && traces[w]->index == f.idx && (f.idx % nw) == (uint64_t)w)
        choices.assign(traces[w]->v, traces[w]->v + TraceLen(traces[w]));
    std::vector<uint64_t> used;
    int tries = 0;
    for (; tries < 3 && !reproduced; tries++) reproduced = Attempt(c, choices, t0, o, &msg, &used, nullptr);
    if (!reproduced) {
      // Does it need what earlier cases of the same worker left behind?
      History all;
      for (int k = 0; k <= f.sub; k++)
        for (uint64_t i = f.idx % nw; i < (k == f.sub ? f.idx : count(k)); i += nw) all.push_back({k, CaseSeed(seed, subs[k], i)});
      auto hstart = std::chrono::steady_clock::now();
      auto spent = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - hstart).count(); };
      for (size_t len = 1; !reproduced && spent() < 150; len *= 4) {
        size_t n = std::min(len, all.size());
        g_history.assign(all.end() - n, all.end());
        reproduced = Attempt(c, choices, t0, o, &msg, &used, nullptr);
        if (n == all.size()) break;
      }
      if (!reproduced) g_history.clear();
      tries = 1;
      for (size_t len = g_history.size() / 2; reproduced && len >= 1 && spent() < 200; len /= 2)
        for (size_t i = 0; i + len <= g_history.size() && spent() < 200;) {
          History keep = g_history;
          g_history.erase(g_history.begin() + i, g_history.begin() + i + len);
          std::string m2;
          if (Attempt(c, choices, t0, o, &m2, &used, nullptr)) continue;
          g_history = keep;
          i += len;
        }
    }
    for (; tries < 10 && !reproduced; tries++) reproduced = Attempt(c, choices, t0, o, &msg, &used, nullptr);
    std::string again_line;
    if (!reproduced && !KeepUnreproduced()) {
      // Is it a matter of what the heap looks like? Then the whole run of that
      // worker, repeated in a fresh process, fails too.
      std::string args = "--seed " + std::to_string(seed) + " --tier " + (thorough ? "thorough" : "quick") + " --scale " + std::to_string(scale) +
                         " --workers " + std::to_string(nw) + (only.empty() ? "" : " --only " + only);
      const uint64_t w = f.idx % nw;
      if (again(w, f.sub, f.idx, args) && again(w, f.sub, f.idx, args)) {
        reproduced = true;
        tries = 2;
        again_line = "again " + std::to_string(w) + " " + std::to_string(f.sub) + " " + std::to_string(f.idx) + " " + args + "\n";
        msg = "fails in every run of the whole sequence of cases, but not on its own: " + f.first;
      }
    }
    if (!reproduced && KeepUnreproduced()) {
      reproduced = true;
      tries = 2;
      msg = "seen once, but not in 10 replays: " + f.first;
    }
    if (!reproduced) {
      fprintf(stderr, "pbt: case %llu of %s failed once but 10 replays passed\n", (unsigned long long)f.idx, c.name);
      rc = 3;
    } else {
      std::vector<uint64_t> orig = choices;
      int attempts = 0;
      std::vector<uint64_t> best = tries == 1 ? Shrink(c, choices, t0, o, &msg, &attempts) : choices;
      int hits = 0;
      for (int i = 0; i < 3; i++) hits += Attempt(c, best, t0, o, &m, &used, nullptr);
      if (hits < 3) best = orig;
      Attempt(c, best, t0, o, &m, &used, &notes);
      if (!m.empty()) msg = m;
      std::string rf = g_dir + "/failure.txt";
      std::ofstream r(rf);
      for (char& ch : msg) if (ch == '\n') ch = ' ';
      for (char& ch : notes) if (ch == '\n') ch = ' ';
      r << "subcheck " << c.name << "\nmessage " << msg << "\ncase " << notes << "\nfound seed=" << seed << " index=" << f.idx << " shrink_attempts=" << attempts << " replays_failing=" << hits << "/3\n";
      for (auto& h : g_history) r << "before " << subs[h.first].name << " " << h.second << "\n";
      r << again_line << "choices";
      for (uint64_t x : best) r << " " << x;
      r << "\n";
      viol = std::string(c.name) + ": " + msg + " | case: " + notes;
      rc = 1;
    }
  }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count();
  if (!out.empty()) {
    std::ofstream f(out);
    std::string rule = kRule;
    bool large = false, huge = false;
    for (auto& c : subs) large |= strstr(c.name, "large") != nullptr, huge |= !strncmp(c.name, "huge", 4);
    if (large) rule += " Sub-checks named large do the same at sizes in the hundreds and thousands.";
    if (huge) rule += " Those named huge put single calls beyond 2^31 bytes, blocks or points (optimised build only).";
    f << "{\"evaluations\": " << evals << ", \"distinct_nontrivial\": " << distinct.size() << ", \"discarded\": " << disc << ", \"rule\": " << JsonStr(rule) << ",\n \"subchecks\": {";
    for (size_t i = 0; i < sub_entries.size(); i++) f << (i ? ",\n  " : "") << sub_entries[i];
    f << "},\n \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) f << (i ? ",\n  " : "") << JsonStr(samples[i]);
    f << "],\n \"assumptions\": [";
    for (size_t i = 0; i < kAssumptions.size(); i++) f << (i ? ", " : "") << JsonStr(kAssumptions[i]);
    f << "],\n \"violation\": " << JsonStr(viol) << ", \"budget_hit\": " << (ctl->over_budget ? "true" : "false") << ", \"wall_s\": " << wall << "}\n";
  }
  return rc;
}
#else
// Coverage-guided search over choice sequences: the first byte picks the
// sub-check, the rest is a sequence of LEB128 numbers.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  using namespace pbt;
  static Trace* t = new Trace;
  static const char* only = getenv("PBT_ONLY");
  if (size == 0) return -1;
  const SubCheck& c = Registry()[data[0] % Registry().size()];
  if (c.thorough <= 0) return -1;
  if (only != nullptr && std::string(c.name).find(only) == std::string::npos) return -1;
  std::vector<uint64_t> choices;
  for (size_t i = 1; i < size;) {
    uint64_t x = 0;
    int sh = 0;
    while (i < size) {
      uint8_t b = data[i++];
      if (sh < 64) x |= (uint64_t)(b & 0x7f) << sh;
      sh += 7;
      if (!(b & 0x80)) break;
    }
    choices.push_back(x);
  }
  SeedRand(1);
  try {
    Src s(&choices, t);
    c.fn(s);
  } catch (const Discard&) {
    return -1;
  } catch (const std::exception& e) {
    fprintf(stderr, "pbt: %s: %s\n", c.name, e.what());
    abort();
  }
  return 0;
}
#endif
