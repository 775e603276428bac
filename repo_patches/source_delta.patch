From 11a86330158f9ab0f80e1f5593a66f33af459442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 01/30] fix: BitsNeeded must look at a tuple's non-IntModN
 elements wherever they are

---
 dpf/internal/value_type_helpers.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dpf/internal/value_type_helpers.cc b/dpf/internal/value_type_helpers.cc
index 0704cce..4890e2e 100644
--- a/dpf/internal/value_type_helpers.cc
+++ b/dpf/internal/value_type_helpers.cc
@@ -103,12 +103,14 @@ absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
       }
     }
     if (num_other > 0) {
-      for (int i = 0; i < num_other; ++i) {
+      for (const ValueType& el : value_type.tuple().elements()) {
+        if (el.type_case() == ValueType::kIntModN) {
+          continue;  // Accounted for below.
+        }
         double per_element_security_parameter =
             security_parameter + std::log2(static_cast<double>(num_other));
         DPF_ASSIGN_OR_RETURN(int el_bitsize,
-                             BitsNeeded(value_type.tuple().elements(i),
-                                        per_element_security_parameter));
+                             BitsNeeded(el, per_element_security_parameter));
         bitsize_other += el_bitsize;
       }
     }
-- 
2.43.0


From 9dccbadebf475b05bc351d9080f1aab2d8d52d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 02/30] fix: EvaluateAndApply must not abort when there are no
 keys

---
 dpf/distributed_point_function.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 6cd1c56..47cd193 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -1093,6 +1093,9 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
   }
 
   const int64_t num_keys = keys.size();
+  if (num_keys == 0) {
+    return absl::OkStatus();  // Nothing to do.
+  }
   const int num_hierarchy_levels = parameters_.size();
   DpfExpansion eval;
   eval.control_bits.resize(num_keys);
-- 
2.43.0


From e50651272948c1faabf167d0a31cae7aff400283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 03/30] fix: EvaluateAndApply must reject evaluation points
 outside the domain, as documented

---
 dpf/distributed_point_function.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 47cd193..3557622 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -1092,6 +1092,18 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
     if (!status.ok()) return status;
   }
 
+  // Check if `evaluation_points` are inside the domain.
+  const int evaluation_point_bits =
+      evaluation_points_rightshift + parameters_.back().log_domain_size();
+  if (evaluation_point_bits < 128) {
+    for (size_t i = 0; i < evaluation_points.size(); ++i) {
+      if (evaluation_points[i] >> evaluation_point_bits != 0) {
+        return absl::InvalidArgumentError(absl::StrCat(
+            "`evaluation_points[", i, "]` larger than the domain size"));
+      }
+    }
+  }
+
   const int64_t num_keys = keys.size();
   if (num_keys == 0) {
     return absl::OkStatus();  // Nothing to do.
-- 
2.43.0


From 96ce79c7facba12aa318e0ea6e141ad726b7f4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 04/30] fix: fixed-key hash must not overwrite inputs it has
 yet to read when spans overlap

---
 dpf/aes_128_fixed_key_hash.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dpf/aes_128_fixed_key_hash.cc b/dpf/aes_128_fixed_key_hash.cc
index f7df231..d7dda76 100644
--- a/dpf/aes_128_fixed_key_hash.cc
+++ b/dpf/aes_128_fixed_key_hash.cc
@@ -20,6 +20,7 @@
 
 #include <algorithm>
 #include <array>
+#include <functional>
 #include <string>
 #include <utility>
 
@@ -70,8 +71,14 @@ absl::Status Aes128FixedKeyHash::Evaluate(absl::Span<const absl::uint128> in,
   // at a time.
   auto in_size = static_cast<int64_t>(in.size());
   std::array<absl::uint128, kBatchSize> sigma_in;
-  for (int64_t start_block = 0; start_block < in_size;
-       start_block += kBatchSize) {
+  // If `out` starts after `in`, process batches back to front, so that no batch
+  // overwrites inputs that are still needed in case the two overlap.
+  const bool back_to_front =
+      std::greater<const absl::uint128*>()(out.data(), in.data());
+  const int64_t num_batches = (in_size + kBatchSize - 1) / kBatchSize;
+  for (int64_t batch = 0; batch < num_batches; ++batch) {
+    int64_t start_block =
+        (back_to_front ? num_batches - 1 - batch : batch) * kBatchSize;
     int64_t batch_size = std::min<int64_t>(in_size - start_block, kBatchSize);
     for (int i = 0; i < batch_size; ++i) {
       sigma_in[i] =
-- 
2.43.0


From e02d908e8683aace6666b272b722c0ae0fed08e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 05/30] fix: simple hash table must count an element's own
 copies against max_bucket_size

---
 pir/hashing/simple_hash_table.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pir/hashing/simple_hash_table.cc b/pir/hashing/simple_hash_table.cc
index b03c19e..8232f7e 100644
--- a/pir/hashing/simple_hash_table.cc
+++ b/pir/hashing/simple_hash_table.cc
@@ -14,6 +14,7 @@
 
 #include "pir/hashing/simple_hash_table.h"
 
+#include <algorithm>
 #include <memory>
 #include <string>
 #include <utility>
@@ -56,7 +57,11 @@ absl::Status SimpleHashTable::Insert(absl::string_view input) {
   std::vector<int> hashes(hash_functions_.size());
   for (int i = 0; i < hash_functions_.size(); i++) {
     hashes[i] = hash_functions_[i](input, num_buckets_);
-    if (max_bucket_size_ && table_[hashes[i]].size() >= *max_bucket_size_) {
+    // Also count the copies that earlier hash functions put in the same bucket.
+    const size_t new_copies =
+        std::count(hashes.begin(), hashes.begin() + i, hashes[i]);
+    if (max_bucket_size_ &&
+        table_[hashes[i]].size() + new_copies >= *max_bucket_size_) {
       return absl::InternalError(
           "Cannot insert element: maximum bucket size reached");
     }
-- 
2.43.0


From c0528694572e3bf47b3f8b3bea5cf132a3186129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 06/30] fix: IntModN sampling from a 128-bit base must use
 fresh bytes for each further sample

---
 dpf/int_mod_n.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dpf/int_mod_n.h b/dpf/int_mod_n.h
index 0f61ed0..c6b2013 100644
--- a/dpf/int_mod_n.h
+++ b/dpf/int_mod_n.h
@@ -175,6 +175,8 @@ class IntModNImpl : public IntModNBase {
         r /= kModulus;
         if (sizeof(BaseInteger) < sizeof(absl::uint128)) {
           r <<= (sizeof(BaseInteger) * 8);
+        } else {
+          r = 0;
         }
         r |= randomness[i];
       }
-- 
2.43.0


From 9ea6747d4cd79bd5c17822a4195ed59c2fd57d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 07/30] fix: converting a Value message must not drop the high
 64 bits of out-of-range integers

---
 dpf/internal/value_type_helpers.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dpf/internal/value_type_helpers.h b/dpf/internal/value_type_helpers.h
index 1e28348..4c62120 100644
--- a/dpf/internal/value_type_helpers.h
+++ b/dpf/internal/value_type_helpers.h
@@ -168,12 +168,11 @@ Value::Integer Uint128ToValueInteger(absl::uint128 input);
 template <typename T, typename = absl::enable_if_t<is_unsigned_integer_v<T>>>
 absl::StatusOr<T> Uint128To(absl::uint128 in) {
   // Check whether value is in range if it's smaller than 128 bits.
-  if (!std::is_same<T, absl::uint128>::value &&
-      absl::Uint128Low64(in) >
-          static_cast<uint64_t>(std::numeric_limits<T>::max())) {
-    return absl::InvalidArgumentError(absl::StrCat(
-        "Value (= ", absl::Uint128Low64(in),
-        ") too large for the given type T (size ", sizeof(T), ")"));
+  if (sizeof(T) < sizeof(absl::uint128) &&
+      in > absl::uint128{std::numeric_limits<T>::max()}) {
+    return absl::InvalidArgumentError(
+        absl::StrFormat("Value (= %d) too large for the given type T (size %d)",
+                        in, sizeof(T)));
   }
   return static_cast<T>(in);
 }
-- 
2.43.0


From 0e6e06bbf7620992dae2af32f7a69db826a1bbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 08/30] fix: comparison functions with XorWrapper values must
 set the values of unset bits to zero

---
 dcf/distributed_comparison_function.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index 40f9c36..db0250b 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -34,6 +34,8 @@ void SetToZero(Value& value) {
     value.mutable_integer()->set_value_uint64(0);
   } else if (value.value_case() == Value::kIntModN) {
     value.mutable_int_mod_n()->set_value_uint64(0);
+  } else if (value.value_case() == Value::kXorWrapper) {
+    value.mutable_xor_wrapper()->set_value_uint64(0);
   } else if (value.value_case() == Value::kTuple) {
     for (int i = 0; i < value.tuple().elements_size(); ++i) {
       SetToZero(*(value.mutable_tuple()->mutable_elements(i)));
-- 
2.43.0


From b7a6a5afb744455453acbc75a572abaa6af88d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 09/30] fix: comparison function keys must not be generated for
 an invalid beta when alpha is zero

---
 dcf/distributed_comparison_function.cc |  4 ++++
 dpf/internal/proto_validator.cc        | 13 ++++++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index db0250b..a462736 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -82,6 +82,10 @@ DistributedComparisonFunction::Create(const DcfParameters& parameters) {
 absl::StatusOr<std::pair<DcfKey, DcfKey>>
 DistributedComparisonFunction::GenerateKeys(absl::uint128 alpha,
                                             const Value& beta) {
+  // Check beta here, since levels at which it is replaced by 0 don't.
+  DPF_RETURN_IF_ERROR(dpf_internal::ProtoValidator::ValidateValue(
+      beta, parameters_.parameters().value_type()));
+
   const int log_domain_size = parameters_.parameters().log_domain_size();
   std::vector<Value> dpf_values(log_domain_size, beta);
   for (int i = 0; i < log_domain_size; ++i) {
diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index 678b3de..c41cbfe 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -88,13 +88,12 @@ absl::Status ValidateIntegerType(const ValueType::Integer& type) {
 
 absl::Status ValidateIntegerValue(const Value::Integer& value,
                                   const ValueType::Integer& type) {
-  if (type.bitsize() < 128) {
-    DPF_ASSIGN_OR_RETURN(absl::uint128 value_128, ValueIntegerToUint128(value));
-    if (value_128 >= absl::uint128{1} << type.bitsize()) {
-      return absl::InvalidArgumentError(absl::StrFormat(
-          "Value (= %d) too large for ValueType with bitsize = %d", value_128,
-          type.bitsize()));
-    }
+  DPF_ASSIGN_OR_RETURN(absl::uint128 value_128, ValueIntegerToUint128(value));
+  if (type.bitsize() < 128 &&
+      value_128 >= absl::uint128{1} << type.bitsize()) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "Value (= %d) too large for ValueType with bitsize = %d", value_128,
+        type.bitsize()));
   }
   return absl::OkStatus();
 }
-- 
2.43.0


From 435bf605767d1e815790567faa7a946b3360501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 10/30] fix: comparison functions must refuse domains above 128
 bits and honour the security parameter

---
 dcf/distributed_comparison_function.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index a462736..f608fa7 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -55,6 +55,9 @@ DistributedComparisonFunction::Create(const DcfParameters& parameters) {
   if (parameters.parameters().log_domain_size() < 1) {
     return absl::InvalidArgumentError("A DCF must have log_domain_size >= 1");
   }
+  if (parameters.parameters().log_domain_size() > 128) {
+    return absl::InvalidArgumentError("`log_domain_size` must be <= 128");
+  }
 
   // Create parameter vector for the incremental DPF.
   std::vector<DpfParameters> dpf_parameters(
@@ -63,6 +66,8 @@ DistributedComparisonFunction::Create(const DcfParameters& parameters) {
     dpf_parameters[i].set_log_domain_size(i);
     *(dpf_parameters[i].mutable_value_type()) =
         parameters.parameters().value_type();
+    dpf_parameters[i].set_security_parameter(
+        parameters.parameters().security_parameter());
   }
 
   // Check that parameters are valid. We can use the DPF proto validator
-- 
2.43.0


From 3806ecf3d8a5bb6177a1184e828a5b82ddb4253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 11/30] fix: value types with an empty tuple or a zero modulus
 must be refused

---
 dpf/internal/proto_validator.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index c41cbfe..fee4ad2 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -269,6 +269,9 @@ absl::Status ProtoValidator::ValidateValueType(const ValueType& value_type) {
   if (value_type.type_case() == ValueType::kInteger) {
     return ValidateIntegerType(value_type.integer());
   } else if (value_type.type_case() == ValueType::kTuple) {
+    if (value_type.tuple().elements().empty()) {
+      return absl::InvalidArgumentError("Tuples must not be empty");
+    }
     for (const ValueType& el : value_type.tuple().elements()) {
       DPF_RETURN_IF_ERROR(ValidateValueType(el));
     }
@@ -277,7 +280,15 @@ absl::Status ProtoValidator::ValidateValueType(const ValueType& value_type) {
     const ValueType::Integer& base_integer =
         value_type.int_mod_n().base_integer();
     DPF_RETURN_IF_ERROR(ValidateIntegerType(base_integer));
-    return ValidateIntegerValue(value_type.int_mod_n().modulus(), base_integer);
+    DPF_RETURN_IF_ERROR(
+        ValidateIntegerValue(value_type.int_mod_n().modulus(), base_integer));
+    DPF_ASSIGN_OR_RETURN(
+        absl::uint128 modulus,
+        ValueIntegerToUint128(value_type.int_mod_n().modulus()));
+    if (modulus == 0) {
+      return absl::InvalidArgumentError("`modulus` must be positive");
+    }
+    return absl::OkStatus();
   } else if (value_type.type_case() == ValueType::kXorWrapper) {
     return ValidateIntegerType(value_type.xor_wrapper());
   }
-- 
2.43.0


From 1d5d7acc82f5fb9ecd2d655051912fb4a705be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 12/30] fix: evaluating an interval gate on no keys or no
 intervals must not abort

---
 dcf/fss_gates/multiple_interval_containment.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index 174d546..1ef47e1 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -229,6 +229,10 @@ MultipleIntervalContainmentGate::BatchEval(
   }
 
   int num_intervals = mic_parameters_.intervals_size();
+  if (keys.size() == 0 || num_intervals == 0) {
+    // Nothing to evaluate.
+    return std::vector<absl::uint128>();
+  }
   std::vector<absl::uint128> p(num_intervals), q(num_intervals),
       q_prime(num_intervals), s_p(keys.size() * num_intervals),
       s_q_prime(keys.size() * num_intervals);
-- 
2.43.0


From 00ce3dce75b9c92d29565260f6e1abb49b3c262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 13/30] fix: interval bounds given as 64-bit integers must not
 be read as zero

---
 .../multiple_interval_containment.cc          | 37 ++++++++++---------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index 1ef47e1..f66f0ee 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -29,6 +29,7 @@
 #include "dcf/fss_gates/prng/basic_rng.h"
 #include "dpf/distributed_point_function.pb.h"
 #include "dpf/internal/maybe_deref_span.h"
+#include "dpf/internal/value_type_helpers.h"
 #include "dpf/status_macros.h"
 
 namespace distributed_point_functions {
@@ -56,13 +57,13 @@ MultipleIntervalContainmentGate::Create(const MicParameters& mic_parameters) {
       return absl::InvalidArgumentError("Intervals should be non-empty");
     }
 
-    absl::uint128 p = absl::MakeUint128(
-        mic_parameters.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters.intervals(i).lower_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 p,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters.intervals(i).lower_bound()));
 
-    absl::uint128 q = absl::MakeUint128(
-        mic_parameters.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters.intervals(i).upper_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 q,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters.intervals(i).upper_bound()));
 
     // Return error if the intervals are not valid group elements.
     if (p < 0 || p >= N) {
@@ -154,13 +155,13 @@ absl::StatusOr<std::pair<MicKey, MicKey>> MultipleIntervalContainmentGate::Gen(
 
   // Line 3
   for (int i = 0; i < mic_parameters_.intervals_size(); i++) {
-    absl::uint128 p = absl::MakeUint128(
-        mic_parameters_.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).lower_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 p,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).lower_bound()));
 
-    absl::uint128 q = absl::MakeUint128(
-        mic_parameters_.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).upper_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 q,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).upper_bound()));
 
     // Line 4
     absl::uint128 q_prime = (q + 1) % N;
@@ -247,13 +248,13 @@ MultipleIntervalContainmentGate::BatchEval(
   // https://eprint.iacr.org/2020/1392 Fig. 14 Eval procedure.
   for (int i = 0; i < num_intervals; ++i) {
     // Line 2
-    p[i] = absl::MakeUint128(
-        mic_parameters_.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).lower_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(p[i],
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).lower_bound()));
 
-    q[i] = absl::MakeUint128(
-        mic_parameters_.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).upper_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(q[i],
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).upper_bound()));
 
     // Line 3
     q_prime[i] = (q[i] + 1) % N;
-- 
2.43.0


From 7d91b756f13789f097dba86287248623cf4c620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 14/30] fix: interval gate keys without a mask share for each
 interval must be refused

---
 dcf/fss_gates/multiple_interval_containment.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index f66f0ee..fae3345 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -234,6 +234,13 @@ MultipleIntervalContainmentGate::BatchEval(
     // Nothing to evaluate.
     return std::vector<absl::uint128>();
   }
+  for (int i = 0; i < keys.size(); ++i) {
+    if (keys[i].output_mask_share_size() != num_intervals) {
+      return absl::InvalidArgumentError(
+          "Count of output mask shares in each key should be equal to the "
+          "number of intervals");
+    }
+  }
   std::vector<absl::uint128> p(num_intervals), q(num_intervals),
       q_prime(num_intervals), s_p(keys.size() * num_intervals),
       s_q_prime(keys.size() * num_intervals);
@@ -298,9 +305,9 @@ MultipleIntervalContainmentGate::BatchEval(
       s_q_prime[index] = s_q_prime[index] % N;
 
       // Line 7
-      absl::uint128 z =
-          absl::MakeUint128(k.output_mask_share(j).value_uint128().high(),
-                            k.output_mask_share(j).value_uint128().low());
+      DPF_ASSIGN_OR_RETURN(
+          absl::uint128 z,
+          dpf_internal::ValueIntegerToUint128(k.output_mask_share(j)));
       absl::uint128 y = (k.dcfkey().key().party()
                              ? ((x > p[j] ? 1 : 0) - (x > q_prime[j] ? 1 : 0))
                              : 0) -
-- 
2.43.0


From 51fbb133359d379de3065ee061dba0c64a7bd1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 15/30] fix: Count all bytes sampled for tuples with IntModN
 elements

BitsNeeded underestimated the number of bytes sampled for tuples whose last
element is smaller than one of its IntModN elements, so that key generation
and evaluation crashed when the difference crossed a block boundary.
---
 dpf/internal/value_type_helpers.cc | 38 +++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/dpf/internal/value_type_helpers.cc b/dpf/internal/value_type_helpers.cc
index 4890e2e..09b8b27 100644
--- a/dpf/internal/value_type_helpers.cc
+++ b/dpf/internal/value_type_helpers.cc
@@ -16,6 +16,7 @@
 
 #include <stdint.h>
 
+#include <algorithm>
 #include <cmath>
 #include <string>
 
@@ -68,6 +69,32 @@ absl::StatusOr<bool> ValueTypesAreEqual(const ValueType& lhs,
   return false;
 }
 
+namespace {
+
+// Accumulates the sizes of the integers a value of type `value_type` consists
+// of, in the order in which they are sampled. Sets `has_int_mod_n` to true if
+// one of them is an IntModN, and `last_bitsize` to the size of the last one.
+void AddElementSizes(const ValueType& value_type, int& total_bitsize,
+                     int& last_bitsize, bool& has_int_mod_n) {
+  if (value_type.type_case() == ValueType::kTuple) {
+    for (const ValueType& el : value_type.tuple().elements()) {
+      AddElementSizes(el, total_bitsize, last_bitsize, has_int_mod_n);
+    }
+    return;
+  }
+  if (value_type.type_case() == ValueType::kInteger) {
+    last_bitsize = value_type.integer().bitsize();
+  } else if (value_type.type_case() == ValueType::kXorWrapper) {
+    last_bitsize = value_type.xor_wrapper().bitsize();
+  } else if (value_type.type_case() == ValueType::kIntModN) {
+    last_bitsize = value_type.int_mod_n().base_integer().bitsize();
+    has_int_mod_n = true;
+  }
+  total_bitsize += last_bitsize;
+}
+
+}  // namespace
+
 absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
                                double security_parameter) {
   if (value_type.type_case() == ValueType::kInteger) {
@@ -125,7 +152,16 @@ absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
               modulus, security_parameter));
       bitsize_ints_mod_n = bytes_needed_ints_mod_n * 8;
     }
-    return bitsize_ints_mod_n + bitsize_other;
+    // If the tuple cannot be converted directly, sampling starts with a 128-bit
+    // block, and every element except for the last consumes as many bits as its
+    // integer type has (see `SampleAndUpdateBytes`). If the last element is
+    // smaller than the IntModNs, this is more than what we've counted so far.
+    int total_bitsize = 0;
+    int last_bitsize = 0;
+    bool has_int_mod_n = false;
+    AddElementSizes(value_type, total_bitsize, last_bitsize, has_int_mod_n);
+    int bitsize_sampling = has_int_mod_n ? 128 + total_bitsize - last_bitsize : 0;
+    return std::max(bitsize_ints_mod_n + bitsize_other, bitsize_sampling);
   } else if (value_type.type_case() == ValueType::kIntModN) {
     DPF_ASSIGN_OR_RETURN(
         absl::uint128 modulus,
-- 
2.43.0


From 2b38d5a29cf35588e22acba9ae5c85e373bcfcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 16/30] fix: Check the value type in EvaluateAt and
 EvaluateAndApply

Like EvaluateUntil, return INVALID_ARGUMENT if T doesn't match the
parameters, instead of crashing or returning meaningless values.
---
 dpf/distributed_point_function.h | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 3557622..4d3bc64 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -347,8 +347,9 @@ class DistributedPointFunction {
   //   DPF_ASSIGN_OR_RETURN(std::vector<T> result,
   //                        dpf->EvaluateAt(key, 0, evaluation_points);
   //
-  // Returns INVALID_ARGUMENT if `key` is malformed, or if `hierarchy_level` or
-  // any element of `evaluation_points` is out of range.
+  // Returns INVALID_ARGUMENT if `key` is malformed, if `hierarchy_level` or any
+  // element of `evaluation_points` is out of range, or if T doesn't match the
+  // value type at `hierarchy_level`.
   template <typename T>
   absl::StatusOr<std::vector<T>> EvaluateAt(
       const DpfKey& key, int hierarchy_level,
@@ -369,7 +370,8 @@ class DistributedPointFunction {
   // `hierarchy_level`. The contents of `ctx` are undefined in case of an error.
   //
   // Returns INVALID_ARGUMENT if `ctx` is malformed, if `hierarchy_level` or
-  // any element of `evaluation_points` is out of range, or
+  // any element of `evaluation_points` is out of range, if T doesn't match the
+  // value type at `hierarchy_level`, or
   // `ctx.partial_evaluations()` does not contain the prefixes of all
   // `evaluation_points` at `ctx.partial_evaluations_level()`.
   template <typename T>
@@ -401,8 +403,9 @@ class DistributedPointFunction {
   //
   // Return absl::OkStatus() after successfully evaluating `op` on the last
   // hierarchy level, or as soon as `op` returns `false`. Returns
-  // INVALID_ARGUMENT in case any `key` is malformed, or if any of the
-  // `evaluation_points` are out of range.
+  // INVALID_ARGUMENT in case any `key` is malformed, if any of the
+  // `evaluation_points` are out of range, or if T doesn't match the value types
+  // of all hierarchy levels.
   template <typename T, typename Fn>
   absl::Status EvaluateAndApply(
       dpf_internal::MaybeDerefSpan<const DpfKey>,
@@ -938,6 +941,14 @@ absl::StatusOr<std::vector<T>> DistributedPointFunction::EvaluateAtImpl(
         "`hierarchy_level` must be less than the number of parameters passed "
         "at construction");
   }
+  absl::StatusOr<bool> types_are_equal = dpf_internal::ValueTypesAreEqual(
+      ToValueType<T>(), parameters_[hierarchy_level].value_type());
+  if (!types_are_equal.ok()) {
+    return types_are_equal.status();
+  } else if (!*types_are_equal) {
+    return absl::InvalidArgumentError(
+        "Value type T doesn't match parameters at `hierarchy_level`");
+  }
   const auto num_evaluation_points =
       static_cast<int64_t>(evaluation_points.size());
   const int log_domain_size = parameters_[hierarchy_level].log_domain_size();
@@ -1087,6 +1098,17 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
     return absl::InvalidArgumentError(
         "`keys.size()` != `evaluation_points.size()`");
   }
+  const ValueType value_type = ToValueType<T>();
+  for (const DpfParameters& parameters : parameters_) {
+    absl::StatusOr<bool> types_are_equal = dpf_internal::ValueTypesAreEqual(
+        value_type, parameters.value_type());
+    if (!types_are_equal.ok()) {
+      return types_are_equal.status();
+    } else if (!*types_are_equal) {
+      return absl::InvalidArgumentError(
+          "Value type T doesn't match parameters at all hierarchy levels");
+    }
+  }
   for (size_t i = 0; i < keys.size(); ++i) {
     absl::Status status = proto_validator_->ValidateDpfKey(keys[i]);
     if (!status.ok()) return status;
-- 
2.43.0


From 401874c5c9823e6f76629a83d25bf4ac92b22096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 17/30] fix: Check the range of
 EvaluationContext.partial_evaluations_level

It was used as an index even if it is documented to be ignored, and without
checking that it is non-negative and less than the number of parameters.
---
 dpf/distributed_point_function.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dpf/distributed_point_function.cc b/dpf/distributed_point_function.cc
index a3c42d0..be588c2 100644
--- a/dpf/distributed_point_function.cc
+++ b/dpf/distributed_point_function.cc
@@ -381,7 +381,19 @@ DistributedPointFunction::ComputePartialEvaluations(
   int64_t num_prefixes = static_cast<int64_t>(prefixes.size());
 
   DpfExpansion partial_evaluations;
-  int start_level = hierarchy_to_tree_[ctx.partial_evaluations_level()];
+  int start_level = 0;
+  if (ctx.partial_evaluations_size() > 0) {
+    // `ctx.partial_evaluations_level()` is only meaningful (and needs to be in
+    // range) if there are partial evaluations.
+    if (ctx.partial_evaluations_level() < 0 ||
+        ctx.partial_evaluations_level() >=
+            static_cast<int>(parameters_.size())) {
+      return absl::InvalidArgumentError(
+          "`ctx.partial_evaluations_level` must be non-negative and less than "
+          "parameters_.size()");
+    }
+    start_level = hierarchy_to_tree_[ctx.partial_evaluations_level()];
+  }
   int stop_level = hierarchy_to_tree_[hierarchy_level];
   if (ctx.partial_evaluations_size() > 0 && start_level <= stop_level) {
     // We have partial evaluations from a tree level before the current one.
-- 
2.43.0


From 7f30da39e0577dbd4daf1ec5d267ab0ef8e29623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 18/30] fix: Do not lose records on the stash when building a
 cuckoo-hashed database

Keys were cuckoo hashed with an unlimited stash, but only the table makes it
into the database: the records of keys on the stash were silently dropped. With
few records, the number of relocations (equal to the number of records) made
this frequent. Allow more relocations, and fail if a key doesn't fit.
---
 pir/cuckoo_hashed_dpf_pir_database.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pir/cuckoo_hashed_dpf_pir_database.cc b/pir/cuckoo_hashed_dpf_pir_database.cc
index 8331377..5168f3f 100644
--- a/pir/cuckoo_hashed_dpf_pir_database.cc
+++ b/pir/cuckoo_hashed_dpf_pir_database.cc
@@ -16,6 +16,7 @@
 
 #include <stdint.h>
 
+#include <algorithm>
 #include <cstddef>
 #include <memory>
 #include <string>
@@ -38,6 +39,11 @@
 namespace distributed_point_functions {
 
 namespace {
+
+// Lower bound on the number of relocations allowed when inserting a key. Small
+// databases need more relocations than they have records.
+constexpr int64_t kMinRelocations = 1000;
+
 absl::Status CheckHasNotBeenBuilt(bool has_been_built) {
   if (has_been_built) {
     return absl::FailedPreconditionError("Database already built");
@@ -136,12 +142,15 @@ CuckooHashedDpfPirDatabase::Builder::Build() {
     value_database_builder_ = std::make_unique<DenseDpfPirDatabase::Builder>();
   }
 
-  // Cuckoo hash all the keys.
+  // Cuckoo hash all the keys. The database has no room for a stash, so records
+  // that would end up there must fail the insertion instead of getting lost.
   int64_t num_records = records_.size();
   DPF_ASSIGN_OR_RETURN(
       auto cuckoo_hasher,
       CuckooHashTable::Create(std::move(hash_family), params_.num_buckets(),
-                              params_.num_hash_functions(), num_records));
+                              params_.num_hash_functions(),
+                              std::max(num_records, kMinRelocations),
+                              /*max_stash_size=*/0));
   for (const auto& [key, _] : records_) {
     if (key.empty()) {
       return absl::InvalidArgumentError("Key cannot be empty");
-- 
2.43.0


From 4b5564a5f5e820be4682272161447b2dd2925d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 19/30] fix: Refuse simple-hashing bucket counts that do not
 fit an int

A count of 2^32+k was silently truncated to k buckets.
---
 pir/simple_hashed_dpf_pir_database.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pir/simple_hashed_dpf_pir_database.cc b/pir/simple_hashed_dpf_pir_database.cc
index 903801c..178c90f 100644
--- a/pir/simple_hashed_dpf_pir_database.cc
+++ b/pir/simple_hashed_dpf_pir_database.cc
@@ -15,6 +15,7 @@
 #include "pir/simple_hashed_dpf_pir_database.h"
 
 #include <cstddef>
+#include <limits>
 #include <memory>
 #include <string>
 #include <utility>
@@ -97,9 +98,12 @@ SimpleHashedDpfPirDatabase::Builder::Build() {
   int num_buckets = params_.num_buckets();
   int num_records = records_.size();
 
-  if (num_buckets <= 0) {
+  if (params_.num_buckets() <= 0) {
     return absl::InvalidArgumentError("`num_buckets` must be positive");
   }
+  if (params_.num_buckets() > std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError("`num_buckets` must fit into an int");
+  }
   DPF_ASSIGN_OR_RETURN(
       HashFamily hash_family,
       CreateHashFamilyFromConfig(params_.hash_family_config()));
-- 
2.43.0


From a2f3734b983affe5371c46dcb17b4209a9b328db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 20/30] fix: Do not truncate the database size in the dense PIR
 client

Configurations with 2^31 or more elements had valid indices refused.
---
 pir/dense_dpf_pir_client.cc | 3 ++-
 pir/dense_dpf_pir_client.h  | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pir/dense_dpf_pir_client.cc b/pir/dense_dpf_pir_client.cc
index 12cdb08..a16f69a 100644
--- a/pir/dense_dpf_pir_client.cc
+++ b/pir/dense_dpf_pir_client.cc
@@ -15,6 +15,7 @@
 #include "pir/dense_dpf_pir_client.h"
 
 #include <cmath>
+#include <cstdint>
 #include <memory>
 #include <new>
 #include <string>
@@ -42,7 +43,7 @@ namespace distributed_point_functions {
 DenseDpfPirClient::DenseDpfPirClient(
     std::unique_ptr<DistributedPointFunction> dpf,
     EncryptHelperRequestFn encrypter, std::string encryption_context_info,
-    int database_size)
+    int64_t database_size)
     : DpfPirClient(std::move(encrypter), std::move(encryption_context_info)),
       dpf_(std::move(dpf)),
       database_size_(database_size) {}
diff --git a/pir/dense_dpf_pir_client.h b/pir/dense_dpf_pir_client.h
index 3ee4dec..423dc37 100644
--- a/pir/dense_dpf_pir_client.h
+++ b/pir/dense_dpf_pir_client.h
@@ -17,6 +17,7 @@
 #ifndef DISTRIBUTED_POINT_FUNCTIONS_PIR_DENSE_DPF_PIR_CLIENT_H_
 #define DISTRIBUTED_POINT_FUNCTIONS_PIR_DENSE_DPF_PIR_CLIENT_H_
 
+#include <cstdint>
 #include <memory>
 #include <string>
 #include <tuple>
@@ -78,10 +79,10 @@ class DenseDpfPirClient
 
   DenseDpfPirClient(std::unique_ptr<DistributedPointFunction> dpf,
                     EncryptHelperRequestFn encrypter,
-                    std::string encryption_context_info, int database_size);
+                    std::string encryption_context_info, int64_t database_size);
 
   std::unique_ptr<DistributedPointFunction> dpf_;
-  int database_size_;
+  int64_t database_size_;
 };
 
 }  // namespace distributed_point_functions
-- 
2.43.0


From fbfc513f0fee2d74bc08c8b9bc33f3ddcd233cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 21/30] fix: Do not match cuckoo responses that are shorter
 than the query

A query that extends the key in its bucket beyond the longest key in the
database was answered with that key's value.
---
 pir/cuckoo_hashing_sparse_dpf_pir_client.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
index 9ed0d3b..7dc94e5 100644
--- a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
+++ b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
@@ -44,6 +44,9 @@ namespace {
 // zero bytes.
 bool IsPrefixPaddedWithZeros(absl::string_view input,
                              absl::string_view prefix) {
+  if (input.size() < prefix.size()) {
+    return false;
+  }
   for (int i = 0; i < input.size(); ++i) {
     if (i < prefix.size()) {
       if (input[i] != prefix[i]) return false;
-- 
2.43.0


From 93f2cdcbd5961d7106701e3041d6e0f103242199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 22/30] fix: Do not answer empty cuckoo queries with the
 contents of empty buckets

---
 pir/cuckoo_hashing_sparse_dpf_pir_client.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
index 7dc94e5..99f8437 100644
--- a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
+++ b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
@@ -205,6 +205,13 @@ CuckooHashingSparseDpfPirClient::HandleResponse(
   std::vector<absl::optional<std::string>> result(
       raw_responses.size() / hash_functions_.size() / 2, absl::nullopt);
   for (int i = 0; i < result.size(); ++i) {
+    if (request_client_state
+            .cuckoo_hashing_sparse_dpf_pir_request_client_state()
+            .query_strings(i)
+            .empty()) {
+      // Keys are never empty, but empty buckets would match an empty query.
+      continue;
+    }
     for (int j = 0; j < hash_functions_.size(); ++j) {
       int raw_index = 2 * (hash_functions_.size() * i + j);
       if (!result[i].has_value() &&
-- 
2.43.0


From e7dfac180d309722ee14c1796d0aa3d07d25efa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 23/30] fix: Keep a copy of the encryption context info in
 DpfPirServer

MakeHelper stored a view of its argument, which need not outlive the call.
---
 pir/dpf_pir_server.cc | 3 ++-
 pir/dpf_pir_server.h  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pir/dpf_pir_server.cc b/pir/dpf_pir_server.cc
index e3c13dd..7169623 100644
--- a/pir/dpf_pir_server.cc
+++ b/pir/dpf_pir_server.cc
@@ -47,7 +47,8 @@ absl::Status DpfPirServer::MakeHelper(
   if (decrypter == nullptr) {
     return absl::InvalidArgumentError("`decrypter` may not be null");
   }
-  role_storage_ = DpfPirHelper{std::move(decrypter), encryption_context_info};
+  role_storage_ = DpfPirHelper{std::move(decrypter),
+                               std::string(encryption_context_info)};
   role_ = Role::kHelper;
   return absl::OkStatus();
 }
diff --git a/pir/dpf_pir_server.h b/pir/dpf_pir_server.h
index 7904246..3ce17db 100644
--- a/pir/dpf_pir_server.h
+++ b/pir/dpf_pir_server.h
@@ -160,7 +160,7 @@ class DpfPirServer : public PirServer {
   };
   struct DpfPirHelper {
     DecryptHelperRequestFn decrypter;
-    absl::string_view encryption_context_info;
+    std::string encryption_context_info;
   };
 
   virtual absl::StatusOr<PirResponse> HandleLeaderRequest(
-- 
2.43.0


From 940d70e9fba319e24309622bfca7adef818f0df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:58 +0000
Subject: [PATCH 24/30] fix: Refuse malformed buckets in the simple hashing PIR
 client

A response whose bucket does not parse, or lists fewer values than keys, made
HandleResponse read past the end of the values.
---
 pir/simple_hashing_sparse_dpf_pir_client.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pir/simple_hashing_sparse_dpf_pir_client.cc b/pir/simple_hashing_sparse_dpf_pir_client.cc
index 33f571c..3295d62 100644
--- a/pir/simple_hashing_sparse_dpf_pir_client.cc
+++ b/pir/simple_hashing_sparse_dpf_pir_client.cc
@@ -197,7 +197,11 @@ SimpleHashingSparseDpfPirClient::HandleResponse(
     ::google::protobuf::io::CodedInputStream coded_stream(
         reinterpret_cast<const uint8_t*>(raw_responses[i].data()),
         raw_responses[i].size());
-    bucket.ParseFromCodedStream(&coded_stream);
+    if (!bucket.ParseFromCodedStream(&coded_stream) ||
+        bucket.keys_size() != bucket.values_size()) {
+      return absl::InvalidArgumentError(
+          "`pir_response` does not contain a valid HashedPirDatabaseBucket");
+    }
     absl::string_view query =
         request_client_state
             .simple_hashing_sparse_dpf_pir_request_client_state()
-- 
2.43.0


From c0a7fd4e88d3749bf06f01614e3f47e93152f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 25/30] fix: Refuse bucket counts that do not fit an int in the
 sparse PIR clients

2^32 buckets were truncated to 0 and crashed the first request; other counts
hashed keys into the wrong range.
---
 pir/cuckoo_hashing_sparse_dpf_pir_client.cc | 4 ++++
 pir/simple_hashing_sparse_dpf_pir_client.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
index 99f8437..b62dd52 100644
--- a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
+++ b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
@@ -95,6 +95,10 @@ CuckooHashingSparseDpfPirClient::Create(
   if (params.cuckoo_hashing_sparse_dpf_pir_server_params().num_buckets() <= 0) {
     return absl::InvalidArgumentError("`num_buckets` must be positive");
   }
+  if (params.cuckoo_hashing_sparse_dpf_pir_server_params().num_buckets() >
+      std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError("`num_buckets` must fit in an int");
+  }
   if (params.cuckoo_hashing_sparse_dpf_pir_server_params()
           .num_hash_functions() <= 0) {
     return absl::InvalidArgumentError("`num_hash_functions` must be positive");
diff --git a/pir/simple_hashing_sparse_dpf_pir_client.cc b/pir/simple_hashing_sparse_dpf_pir_client.cc
index 3295d62..dda612d 100644
--- a/pir/simple_hashing_sparse_dpf_pir_client.cc
+++ b/pir/simple_hashing_sparse_dpf_pir_client.cc
@@ -93,6 +93,10 @@ SimpleHashingSparseDpfPirClient::Create(
   if (params.simple_hashing_sparse_dpf_pir_server_params().num_buckets() <= 0) {
     return absl::InvalidArgumentError("`num_buckets` must be positive");
   }
+  if (params.simple_hashing_sparse_dpf_pir_server_params().num_buckets() >
+      std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError("`num_buckets` must fit in an int");
+  }
 
   DPF_ASSIGN_OR_RETURN(HashFamily hash_family,
                        CreateHashFamilyFromConfig(
-- 
2.43.0


From 6133e53d908321e18a288aaa806f3918253bc5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 26/30] fix: Refuse cuckoo element counts whose bucket count
 overflows

---
 pir/cuckoo_hashing_sparse_dpf_pir_server.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pir/cuckoo_hashing_sparse_dpf_pir_server.cc b/pir/cuckoo_hashing_sparse_dpf_pir_server.cc
index f0de5ff..4109fdd 100644
--- a/pir/cuckoo_hashing_sparse_dpf_pir_server.cc
+++ b/pir/cuckoo_hashing_sparse_dpf_pir_server.cc
@@ -61,6 +61,14 @@ CuckooHashingSparseDpfPirServer::GenerateParams(const PirConfig& config) {
       HashFamilyConfig::HASH_FAMILY_UNSPECIFIED) {
     return absl::InvalidArgumentError("`hash_family` must be set");
   }
+  double num_buckets =
+      kBucketsPerElement *
+      config.cuckoo_hashing_sparse_dpf_pir_config().num_elements();
+  // The closest double to the maximum is 2^63, which does not fit anymore.
+  if (num_buckets >=
+      static_cast<double>(std::numeric_limits<int64_t>::max())) {
+    return absl::InvalidArgumentError("`num_elements` is too large");
+  }
   CuckooHashingParams params;
   std::string seed(kHashFunctionSeedLengthBytes, '\0');
   RAND_bytes(reinterpret_cast<uint8_t*>(&seed[0]), seed.size());
@@ -68,9 +76,7 @@ CuckooHashingSparseDpfPirServer::GenerateParams(const PirConfig& config) {
   params.mutable_hash_family_config()->set_hash_family(
       config.cuckoo_hashing_sparse_dpf_pir_config().hash_family());
   params.set_num_hash_functions(kNumHashFunctions);
-  params.set_num_buckets(
-      kBucketsPerElement *
-      config.cuckoo_hashing_sparse_dpf_pir_config().num_elements());
+  params.set_num_buckets(static_cast<int64_t>(num_buckets));
   return params;
 }
 
-- 
2.43.0


From 93f282098b4063c6c5832e43a1404f3f671a0890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:18 +0000
Subject: [PATCH 27/30] fix: Make DenseDpfPirClient::CreatePlainRequests
 thread-safe

Creating requests registered the value type with the wrapped function each
time, so that concurrent first calls of this const method raced on its map.
---
 pir/dense_dpf_pir_client.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pir/dense_dpf_pir_client.cc b/pir/dense_dpf_pir_client.cc
index a16f69a..d05e0ba 100644
--- a/pir/dense_dpf_pir_client.cc
+++ b/pir/dense_dpf_pir_client.cc
@@ -68,6 +68,9 @@ absl::StatusOr<std::unique_ptr<DenseDpfPirClient>> DenseDpfPirClient::Create(
   parameters.mutable_value_type()->mutable_xor_wrapper()->set_bitsize(
       kBitsPerBlock);
   DPF_ASSIGN_OR_RETURN(auto dpf, DistributedPointFunction::Create(parameters));
+  // Register the value type here, so that CreatePlainRequests doesn't modify
+  // `dpf` and may be called concurrently.
+  DPF_RETURN_IF_ERROR(dpf->RegisterValueType<XorWrapper<absl::uint128>>());
 
   return absl::WrapUnique(
       new DenseDpfPirClient(std::move(dpf), std::move(encrypter),
@@ -94,8 +97,8 @@ DenseDpfPirClient::CreatePlainRequests(
   DpfPirRequest::HelperRequest helper_request;
   for (int i = 0; i < query_indices.size(); ++i) {
     absl::uint128 alpha = query_indices[i] / kBitsPerBlock;
-    XorWrapper<absl::uint128> beta(absl::uint128{1}
-                                   << (query_indices[i] % kBitsPerBlock));
+    Value beta = ToValue(XorWrapper<absl::uint128>(
+        absl::uint128{1} << (query_indices[i] % kBitsPerBlock)));
     DPF_ASSIGN_OR_RETURN(std::tie(*(leader_request.mutable_dpf_key()->Add()),
                                   *(helper_request.mutable_plain_request()
                                         ->mutable_dpf_key()
-- 
2.43.0


From 91ea9cbccb7a928879b772f9e654cfd09af41893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:33 +0000
Subject: [PATCH 28/30] fix: do not truncate the size of a full evaluation to
 int

The debug check at the end of EvaluateUntil compared the number of outputs,
cast to int, with the 64-bit number expected, so evaluating a hierarchy level
with 2^31 or more outputs aborted in builds with assertions enabled.
---
 dpf/distributed_point_function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 4d3bc64..6c1bd80 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -882,7 +882,7 @@ absl::StatusOr<std::vector<T>> DistributedPointFunction::EvaluateUntil(
   if (prefixes.empty()) {
     // If prefixes is empty (i.e., this is the first evaluation of `ctx`), just
     // return the expansion.
-    ABSL_DCHECK(static_cast<int>(corrected_expansion.size()) ==
+    ABSL_DCHECK(static_cast<int64_t>(corrected_expansion.size()) ==
                 outputs_per_prefix);
     return corrected_expansion;
   } else {
-- 
2.43.0


From a586375fccfedd1369c5d18e434ae4dd35de92d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:26 +0000
Subject: [PATCH 29/30] fix: index bytes of large values with size_t in the
 inner product

XorStringInPlaceNoHwy, used for values that are not aligned for Highway, counted
bytes in an int, so values of 2^31 bytes or more were combined wrongly.
---
 pir/internal/inner_product_hwy.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pir/internal/inner_product_hwy.cc b/pir/internal/inner_product_hwy.cc
index d342f9d..b42986a 100644
--- a/pir/internal/inner_product_hwy.cc
+++ b/pir/internal/inner_product_hwy.cc
@@ -49,7 +49,7 @@ inline void XorStringInPlaceNoHwy(const absl::string_view value, char* result) {
   // fallback to the slow path.
   if (reinterpret_cast<size_t>(result) % alignof(absl::uint128) ||
       reinterpret_cast<size_t>(value.data()) % alignof(absl::uint128)) {
-    for (int i = 0; i < value.size(); ++i) {
+    for (size_t i = 0; i < value.size(); ++i) {
       result[i] ^= value[i];
     }
     return;
@@ -62,7 +62,7 @@ inline void XorStringInPlaceNoHwy(const absl::string_view value, char* result) {
       reinterpret_cast<const absl::uint128*>(value.data());
   absl::uint128* const dest = reinterpret_cast<absl::uint128*>(result);
   const size_t value_size_in_uint128 = value.size() / sizeof(absl::uint128);
-  int i = 0;
+  size_t i = 0;
   for (; i < value_size_in_uint128; ++i) {
     dest[i] ^= source[i];
   }
-- 
2.43.0


From 4efb82076b9ce2b2ac7daa323d95251c5c20bfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:24 +0000
Subject: [PATCH 30/30] fix: index selection bits with int64_t in the inner
 product

The index of a selection bit was kept in an int, so that the bits from the
2^32nd on selected the values from the start again.
---
 pir/internal/inner_product_hwy.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pir/internal/inner_product_hwy.cc b/pir/internal/inner_product_hwy.cc
index b42986a..e88b497 100644
--- a/pir/internal/inner_product_hwy.cc
+++ b/pir/internal/inner_product_hwy.cc
@@ -188,9 +188,9 @@ absl::StatusOr<std::vector<std::string>> InnerProductHwy(
   result_ptrs.reserve(aligned_results.size());
   for (int64_t i = 0; i < selection_vector_size; ++i) {
     // The selection bits are packed in blocks, so we go over them next.
-    const int base = i * kBitsPerBlock;
+    const int64_t base = i * kBitsPerBlock;
     for (int j = 0; j < kBitsPerBlock; ++j) {
-      const int index = base + j;
+      const int64_t index = base + j;
       if (index >= values.size()) {
         break;  // end of values reached
       }
@@ -276,8 +276,8 @@ absl::StatusOr<std::vector<std::string>> InnerProductNoHwy(
   std::vector<std::string> result(selections.size(),
                                   std::string(max_value_size, '\0'));
   const int64_t selection_vector_size = selections[0].size();
-  for (int i = 0; i < selection_vector_size; ++i) {
-    int base = i * kBitsPerBlock;
+  for (int64_t i = 0; i < selection_vector_size; ++i) {
+    int64_t base = i * kBitsPerBlock;
     for (int j = 0; j < kBitsPerBlock; ++j) {
       if (base + j >= values.size()) {
         break;
-- 
2.43.0

