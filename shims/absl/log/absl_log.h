// Stand-in for absl/log/absl_log.h: messages are swallowed, FATAL aborts.
#ifndef VERIF_SHIM_ABSL_LOG_H_
#define VERIF_SHIM_ABSL_LOG_H_
#include <ostream>
#include "absl/log/absl_check.h"
namespace verif_shim {
class NullStream {
 public:
  template <typename T> NullStream& operator<<(const T&) { return *this; }
};
}  // namespace verif_shim
#define VERIF_LOG_INFO ::verif_shim::NullStream()
#define VERIF_LOG_WARNING ::verif_shim::NullStream()
#define VERIF_LOG_ERROR ::verif_shim::NullStream()
#define VERIF_LOG_DFATAL ::verif_shim::NullStream()
#define VERIF_LOG_FATAL ::verif_shim::FatalStream(__FILE__, __LINE__, "LOG(FATAL)").stream()
#define VERIF_LOG_QFATAL VERIF_LOG_FATAL
#define ABSL_LOG(severity) VERIF_LOG_##severity
#define ABSL_LOG_FIRST_N(severity, n) VERIF_LOG_##severity
#define ABSL_LOG_EVERY_N(severity, n) VERIF_LOG_##severity
#define ABSL_LOG_IF(severity, c) if (c) VERIF_LOG_##severity
#endif
