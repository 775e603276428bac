// Type-erased operations of comparison functions, index-aligned with Types().
#ifndef VERIF_DCF_TYPES_H_
#define VERIF_DCF_TYPES_H_
#include "dcf/distributed_comparison_function.h"
#include "dpf_gen.h"
namespace vt {
using D::DcfKey;
using D::DcfParameters;
using D::DistributedComparisonFunction;
typedef std::pair<DcfKey, DcfKey> DcfKeys;
struct DcfOps {
  absl::StatusOr<DcfKeys> (*gen)(DistributedComparisonFunction&, u128 alpha, const Leaves& beta);  // typed interface
  absl::StatusOr<Leaves> (*eval)(DistributedComparisonFunction&, const DcfKey&, u128 x);
  absl::StatusOr<Results> (*batch)(DistributedComparisonFunction&, const std::vector<DcfKey>&, const std::vector<absl::uint128>&);
  absl::StatusOr<Results> (*batch_ptr)(DistributedComparisonFunction&, const std::vector<const DcfKey*>&, const std::vector<absl::uint128>&);
  // Writes into `out`, whose previous contents are given.
  absl::Status (*batch_out)(DistributedComparisonFunction&, const std::vector<const DcfKey*>&, const std::vector<absl::uint128>&, Results* out);
};
template <typename T> DcfOps MakeDcfOps() {
  DcfOps o;
  o.gen = [](DistributedComparisonFunction& d, u128 a, const Leaves& b) { return d.GenerateKeys(A(a), FromLeaves<T>(b)); };
  o.eval = [](DistributedComparisonFunction& d, const DcfKey& k, u128 x) -> absl::StatusOr<Leaves> {
    auto r = d.Evaluate<T>(k, A(x));
    if (!r.ok()) return r.status();
    return ToLeaves<T>(*r);
  };
  o.batch = [](DistributedComparisonFunction& d, const std::vector<DcfKey>& k, const std::vector<absl::uint128>& x) {
    return Conv<T>(d.BatchEvaluate<T>(absl::MakeConstSpan(k), x));
  };
  o.batch_ptr = [](DistributedComparisonFunction& d, const std::vector<const DcfKey*>& k, const std::vector<absl::uint128>& x) {
    return Conv<T>(d.BatchEvaluate<T>(absl::MakeConstSpan(k), x));
  };
  o.batch_out = [](DistributedComparisonFunction& d, const std::vector<const DcfKey*>& k, const std::vector<absl::uint128>& x, Results* out) {
    std::vector<T> v;
    for (auto& l : *out) v.push_back(FromLeaves<T>(l));
    absl::Status st = d.BatchEvaluate<T>(absl::MakeConstSpan(k), x, absl::MakeSpan(v));
    out->clear();
    for (auto& e : v) out->push_back(ToLeaves<T>(e));
    return st;
  };
  return o;
}
const std::vector<DcfOps>& DcfTypes();

struct Dcf {
  size_t ti;
  const TypeOps* type;
  const DcfOps* ops;
  int log;
  DcfParameters params;
  std::unique_ptr<DistributedComparisonFunction> dcf;
  u128 Max() const { return log == 128 ? ~(u128)0 : ((u128)1 << log) - 1; }
};
inline DcfParameters DcfParams(int log, const TypeOps& t, double sec) {
  DcfParameters p;
  *p.mutable_parameters() = MakeParams(log, t, sec);
  return p;
}
inline void DrawDcf(pbt::Src& s, int max_log, Dcf* d) {
  d->ti = s.Draw(Types().size() - 1);
  d->type = &Types()[d->ti];
  d->ops = &DcfTypes()[d->ti];
  // The level at log domain n - 1 needs a security level of 40 + n - 1 bits.
  int cap = std::min(max_log, std::min(127, MaxLogDomain(*d->type)) + 1);
  d->log = (int)(s.Bool() ? s.Int(1, std::min(cap, 10)) : s.Int(1, cap));
  d->params = DcfParams(d->log, *d->type, 0);
  auto f = DistributedComparisonFunction::Create(d->params);
  REQUIRE(f.ok()) << "valid parameters (log domain " << d->log << ", " << d->type->name << ") refused: " << f.status();
  d->dcf = std::move(*f);
  // Keys for explicit Value messages need the type to be registered, which the typed interface does.
  auto k = d->ops->gen(*d->dcf, 0, Zero(*d->type));
  REQUIRE(k.ok()) << "key generation failed: " << k.status();
}
inline u128 NearPoint(pbt::Src& s, u128 a, u128 max) {
  u128 x;
  switch (s.Draw(5)) {
    case 0: x = a; break;
    case 1: x = a ^ ((u128)1 << s.Int(0, 127)); break;
    case 2: x = a + 1; break;
    case 3: x = a - 1; break;
    case 4: { int k = s.Int(0, 127); x = (a >> k) << k; if (s.Bool()) x |= ((u128)1 << k) - 1; break; }
    default: x = s.Edge128(max);
  }
  return x & max;
}
}  // namespace vt
#endif
