// C28: a view of objects or of pointers shows the same objects in order.
// LIBS: core
#include <array>
#include <deque>
#include <string>
#include "absl/container/inlined_vector.h"
#include "dpf/distributed_point_function.pb.h"
#include "dpf/internal/maybe_deref_span.h"
#include "pbt.h"
using pbt::Src;
using distributed_point_functions::dpf_internal::MaybeDerefSpan;
using distributed_point_functions::DpfKey;

const char* const pbt::kRule =
    "A case draws an element type (int, string, key message), 0 to 40 objects, a list of references to them (sub-range, "
    "permuted or repeated), one of the documented ways to build a view (span or container of objects or of pointers, "
    "constant or not, implicit or explicit) and a chain of copies and conversions, then compares addresses at every "
    "index and writes through mutable views. Non-trivial: at least two elements and, for pointers, an order other than "
    "the container's.";
const std::vector<std::string> pbt::kAssumptions = {};

template <typename T> T Make(int i);
template <> int Make<int>(int i) { return i; }
template <> std::string Make<std::string>(int i) { return std::string(i % 40, 'a' + i % 26) + std::to_string(i); }
template <> DpfKey Make<DpfKey>(int i) { DpfKey k; k.set_party(i); return k; }
static std::string Id(int x) { return std::to_string(x); }
static std::string Id(const std::string& x) { return x; }
static std::string Id(const DpfKey& x) { return x.SerializeAsString(); }

template <typename T>
void CheckView(const MaybeDerefSpan<T>& v, const std::vector<const typename std::remove_const<T>::type*>& want, const char* what) {
  REQUIRE(v.size() == want.size()) << what << ": size " << v.size() << ", expected " << want.size();
  for (size_t i = 0; i < want.size(); i++)
    REQUIRE(&v[i] == want[i]) << what << ": element " << i << " of " << want.size() << " is another object";
}
template <typename T>
void Implicit(MaybeDerefSpan<const T> v, const std::vector<const T*>& want, const char* what) { CheckView<const T>(v, want, what); }
template <typename T>
void ImplicitMutable(MaybeDerefSpan<T> v, const std::vector<const T*>& want, const char* what) { CheckView<T>(v, want, what); }

template <typename T>
void Chain(Src& s, MaybeDerefSpan<T> v, const std::vector<const T*>& want) {
  int steps = (int)s.Small(0, 4);
  for (int i = 0; i < steps; i++) {
    MaybeDerefSpan<T> w(v);
    CheckView<T>(w, want, "copy");
    v = w;
  }
  CheckView<T>(v, want, "view");
  MaybeDerefSpan<const T> c(v);
  CheckView<const T>(c, want, "constant view of a mutable one");
  MaybeDerefSpan<const T> c2 = c;
  CheckView<const T>(c2, want, "copy of a constant view");
  Implicit<T>(v, want, "constant view made implicitly from a mutable one");
  // Write through.
  if (want.empty()) return;
  size_t i = s.Draw(want.size() - 1);
  std::vector<std::string> before;
  for (auto* p : want) before.push_back(Id(*p));
  v[i] = Make<T>(1000);
  for (size_t j = 0; j < want.size(); j++)
    REQUIRE(Id(*want[j]) == (want[j] == want[i] ? Id(Make<T>(1000)) : before[j])) << "writing element " << i << " changed element " << j;
}

template <typename T>
void Run(Src& s, const char* name) {
  const bool many = s.Chance(1, 60);
  int n = (int)s.Small(0, many ? 5000 : 40);
  std::vector<T> objs;
  for (int i = 0; i < n; i++) objs.push_back(Make<T>(i));
  // Range of objects.
  int from = (int)s.Int(0, n), len = (int)s.Int(0, n - from);
  std::vector<const T*> range, all;
  for (int i = 0; i < n; i++) all.push_back(&objs[i]);
  for (int i = from; i < from + len; i++) range.push_back(&objs[i]);
  // Pointers, permuted and repeated.
  std::vector<T*> ptrs;
  std::vector<const T*> cptrs;
  int np = n ? (int)s.Small(0, many ? 8000 : 60) : 0;
  bool permuted = false;
  for (int i = 0; i < np; i++) {
    int k = (int)s.Draw(n - 1);
    permuted |= k != i;
    ptrs.push_back(&objs[k]);
    cptrs.push_back(&objs[k]);
  }
  int pfrom = (int)s.Int(0, np), plen = (int)s.Int(0, np - pfrom);
  std::vector<const T*> prange(cptrs.begin() + pfrom, cptrs.begin() + pfrom + plen);
  int way = (int)s.Draw(15);
  NOTE(s, name << ": " << n << " objects, range " << from << "+" << len << ", " << np << " pointers, range " << pfrom << "+" << plen << ", way " << way);
  s.Label(std::string(name) + " way " + std::to_string(way));
  s.NonTrivial(n > 1 && (way % 2 == 0 || (np > 1 && permuted)));
  const std::vector<T>& cobjs = objs;
  const std::vector<T*>& kptrs = ptrs;
  const std::vector<const T*>& kcptrs = cptrs;
  switch (way) {
    case 0: Chain<T>(s, MaybeDerefSpan<T>(absl::MakeSpan(objs)), all); break;
    case 1: Chain<T>(s, MaybeDerefSpan<T>(absl::Span<T* const>(ptrs)), cptrs); break;
    case 2: Chain<T>(s, MaybeDerefSpan<T>(absl::MakeSpan(objs).subspan(from, len)), range); break;
    case 3: Chain<T>(s, MaybeDerefSpan<T>(absl::Span<T* const>(ptrs).subspan(pfrom, plen)), prange); break;
    case 4: Implicit<T>(objs, all, "vector of objects"); break;
    case 5: Implicit<T>(cptrs, cptrs, "vector of constant pointers"); break;
    case 6: Implicit<T>(cobjs, all, "constant vector of objects"); break;
    case 7: Implicit<T>(kcptrs, cptrs, "constant vector of pointers to constant objects"); break;
    case 8: Implicit<T>(absl::MakeConstSpan(objs).subspan(from, len), range, "constant span of objects"); break;
    case 9: Implicit<T>(absl::MakeConstSpan(cptrs).subspan(pfrom, plen), prange, "constant span of pointers"); break;
    case 10: ImplicitMutable<T>(absl::MakeSpan(objs).subspan(from, len), range, "mutable span of objects"); break;
    case 11: ImplicitMutable<T>(absl::MakeConstSpan(ptrs).subspan(pfrom, plen), prange, "span of mutable pointers"); break;
    case 12: { absl::InlinedVector<T, 4> iv(objs.begin(), objs.end()); std::vector<const T*> w; for (auto& x : iv) w.push_back(&x); Implicit<T>(iv, w, "inlined vector of objects"); break; }
    case 13: { absl::InlinedVector<const T*, 4> iv(cptrs.begin(), cptrs.end()); Implicit<T>(iv, cptrs, "inlined vector of pointers"); break; }
    case 14: { std::array<T, 3> a{Make<T>(1), Make<T>(2), Make<T>(3)}; Implicit<T>(a, {&a[0], &a[1], &a[2]}, "array of objects"); break; }
    default: { MaybeDerefSpan<T> m(absl::Span<T* const>(kptrs.data(), kptrs.size())); MaybeDerefSpan<const T> c = m; CheckView<const T>(c, cptrs, "constant view of pointers"); }
  }
}

CASE(ints, 150000, 3000000) { Run<int>(s, "int"); }
CASE(strings, 80000, 1500000) { Run<std::string>(s, "string"); }
CASE(messages, 60000, 1000000) { Run<DpfKey>(s, "key"); }
