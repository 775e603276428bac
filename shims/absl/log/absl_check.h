// Stand-in for absl/log/absl_check.h (absent from the installed Abseil).
// Failing checks abort, as in Abseil. Streams are accepted and printed.
#ifndef VERIF_SHIM_ABSL_CHECK_H_
#define VERIF_SHIM_ABSL_CHECK_H_
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <utility>
#include "absl/status/status.h"
namespace verif_shim {
class FatalStream {
 public:
  FatalStream(const char* file, int line, const char* what) {
    s_ << file << ":" << line << "] Check failed: " << what << " ";
  }
  [[noreturn]] ~FatalStream() {
    std::fprintf(stderr, "%s\n", s_.str().c_str());
    std::fflush(stderr);
    std::abort();
  }
  std::ostream& stream() { return s_; }
 private:
  std::ostringstream s_;
};
struct Voidify { void operator&&(std::ostream&) const {} };
inline const absl::Status& AsStatus(const absl::Status& s) { return s; }
template <typename T> inline const absl::Status& AsStatus(const T& s) { return s.status(); }
}  // namespace verif_shim
#define VERIF_CHECK_IMPL(cond, text) \
  (cond) ? (void)0 : ::verif_shim::Voidify() && \
      ::verif_shim::FatalStream(__FILE__, __LINE__, text).stream()
#define ABSL_CHECK(c) VERIF_CHECK_IMPL((c), #c)
#define ABSL_CHECK_EQ(a, b) VERIF_CHECK_IMPL(((a) == (b)), #a " == " #b)
#define ABSL_CHECK_NE(a, b) VERIF_CHECK_IMPL(((a) != (b)), #a " != " #b)
#define ABSL_CHECK_LE(a, b) VERIF_CHECK_IMPL(((a) <= (b)), #a " <= " #b)
#define ABSL_CHECK_LT(a, b) VERIF_CHECK_IMPL(((a) < (b)), #a " < " #b)
#define ABSL_CHECK_GE(a, b) VERIF_CHECK_IMPL(((a) >= (b)), #a " >= " #b)
#define ABSL_CHECK_GT(a, b) VERIF_CHECK_IMPL(((a) > (b)), #a " > " #b)
#define ABSL_CHECK_OK(s) VERIF_CHECK_IMPL(::verif_shim::AsStatus(s).ok(), #s " is OK")
#ifndef NDEBUG
#define ABSL_DCHECK(c) ABSL_CHECK(c)
#define ABSL_DCHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define ABSL_DCHECK_NE(a, b) ABSL_CHECK_NE(a, b)
#define ABSL_DCHECK_LE(a, b) ABSL_CHECK_LE(a, b)
#define ABSL_DCHECK_LT(a, b) ABSL_CHECK_LT(a, b)
#define ABSL_DCHECK_GE(a, b) ABSL_CHECK_GE(a, b)
#define ABSL_DCHECK_GT(a, b) ABSL_CHECK_GT(a, b)
#else
#define ABSL_DCHECK(c) VERIF_CHECK_IMPL(true || (c), #c)
#define ABSL_DCHECK_EQ(a, b) ABSL_DCHECK((a) == (b))
#define ABSL_DCHECK_NE(a, b) ABSL_DCHECK((a) != (b))
#define ABSL_DCHECK_LE(a, b) ABSL_DCHECK((a) <= (b))
#define ABSL_DCHECK_LT(a, b) ABSL_DCHECK((a) < (b))
#define ABSL_DCHECK_GE(a, b) ABSL_DCHECK((a) >= (b))
#define ABSL_DCHECK_GT(a, b) ABSL_DCHECK((a) > (b))
#endif
#define ABSL_DCHECK_OK(s) ABSL_CHECK_OK(s)
#define ABSL_QCHECK(c) ABSL_CHECK(c)
#define ABSL_QCHECK_OK(s) ABSL_CHECK_OK(s)
#define ABSL_QCHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#endif
