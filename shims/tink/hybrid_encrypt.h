// Minimal stand-in for Tink's interface header (Tink is not installed).
#ifndef VERIF_SHIM_TINK_HYBRID_ENCRYPT_H_
#define VERIF_SHIM_TINK_HYBRID_ENCRYPT_H_
#include <string>
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
namespace crypto { namespace tink {
class HybridEncrypt {
 public:
  virtual absl::StatusOr<std::string> Encrypt(absl::string_view plaintext, absl::string_view context_info) const = 0;
  virtual ~HybridEncrypt() = default;
};
}}  // namespace crypto::tink
#endif
