// Minimal stand-in for Tink's interface header (Tink is not installed).
#ifndef VERIF_SHIM_TINK_HYBRID_DECRYPT_H_
#define VERIF_SHIM_TINK_HYBRID_DECRYPT_H_
#include <string>
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
namespace crypto { namespace tink {
class HybridDecrypt {
 public:
  virtual absl::StatusOr<std::string> Decrypt(absl::string_view ciphertext, absl::string_view context_info) const = 0;
  virtual ~HybridDecrypt() = default;
};
}}  // namespace crypto::tink
#endif
