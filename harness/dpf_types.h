// Output types of DPFs: independent leaf-wise model of each type's group, and
// a type-erased interface for evaluation so that cases can pick a type at run
// time.
#ifndef VERIF_DPF_TYPES_H_
#define VERIF_DPF_TYPES_H_

#include <cstring>
#include <memory>
#include <string>
#include <vector>

#include "absl/numeric/int128.h"
#include "absl/status/statusor.h"
#include "absl/types/span.h"
#include "dpf/distributed_point_function.h"
#include "dpf/int_mod_n.h"
#include "dpf/internal/value_type_helpers.h"
#include "dpf/tuple.h"
#include "dpf/xor_wrapper.h"
#include "hwy/targets.h"
#include "pbt.h"

namespace vt {
using pbt::u128;
namespace D = distributed_point_functions;
using D::DistributedPointFunction;
using D::DpfKey;
using D::DpfParameters;
using D::EvaluationContext;
using D::Value;
using D::ValueType;
using D::Tuple;
using D::XorWrapper;
template <typename B, unsigned __int128 N> using Mod = D::IntModN<B, N>;

inline absl::uint128 A(u128 x) { return absl::MakeUint128((uint64_t)(x >> 64), (uint64_t)x); }
inline u128 U(absl::uint128 x) { return ((u128)absl::Uint128High64(x) << 64) | absl::Uint128Low64(x); }

enum Kind { kInt, kMod, kXor };
struct Leaf { Kind kind; int bits; u128 modulus; };
// A type is a tree: a leaf, or a tuple of subtrees.
struct Shape {
  bool tuple = false;
  Leaf leaf{};
  std::vector<Shape> kids;
};
typedef std::vector<u128> Leaves;

inline u128 MaxOf(const Leaf& l) {
  if (l.kind == kMod) return l.modulus - 1;
  return l.bits == 128 ? ~(u128)0 : (((u128)1 << l.bits) - 1);
}
inline u128 AddLeaf(const Leaf& l, u128 a, u128 b) {
  switch (l.kind) {
    case kXor: return a ^ b;
    case kMod: { u128 gap = l.modulus - a; return b >= gap ? b - gap : a + b; }
    default: return (a + b) & MaxOf(l);
  }
}
inline u128 NegLeaf(const Leaf& l, u128 a) {
  switch (l.kind) {
    case kXor: return a;
    case kMod: return a == 0 ? 0 : l.modulus - a;
    default: return ((u128)0 - a) & MaxOf(l);
  }
}
inline Leaves Add(const std::vector<Leaf>& t, const Leaves& a, const Leaves& b) {
  Leaves r(t.size());
  for (size_t i = 0; i < t.size(); i++) r[i] = AddLeaf(t[i], a[i], b[i]);
  return r;
}
inline std::string Show(const Leaves& v) {
  std::string s = "(";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + pbt::Str128(v[i]);
  return s + ")";
}

inline void SetInteger(Value::Integer* i, u128 x) {
  if (x >> 64) {
    i->mutable_value_uint128()->set_high((uint64_t)(x >> 64));
    i->mutable_value_uint128()->set_low((uint64_t)x);
  } else {
    i->set_value_uint64((uint64_t)x);
  }
}
inline ValueType TypeProto(const Shape& s) {
  ValueType t;
  if (s.tuple) {
    t.mutable_tuple();
    for (auto& k : s.kids) *t.mutable_tuple()->add_elements() = TypeProto(k);
  } else if (s.leaf.kind == kInt) {
    t.mutable_integer()->set_bitsize(s.leaf.bits);
  } else if (s.leaf.kind == kXor) {
    t.mutable_xor_wrapper()->set_bitsize(s.leaf.bits);
  } else {
    t.mutable_int_mod_n()->mutable_base_integer()->set_bitsize(s.leaf.bits);
    SetInteger(t.mutable_int_mod_n()->mutable_modulus(), s.leaf.modulus);
  }
  return t;
}
inline Value ValueProto(const Shape& s, const Leaves& v, size_t* pos) {
  Value r;
  if (s.tuple) {
    r.mutable_tuple();
    for (auto& k : s.kids) *r.mutable_tuple()->add_elements() = ValueProto(k, v, pos);
  } else {
    u128 x = v[(*pos)++];
    if (s.leaf.kind == kInt) SetInteger(r.mutable_integer(), x);
    else if (s.leaf.kind == kXor) SetInteger(r.mutable_xor_wrapper(), x);
    else SetInteger(r.mutable_int_mod_n(), x);
  }
  return r;
}
inline Value ValueProto(const Shape& s, const Leaves& v) { size_t p = 0; return ValueProto(s, v, &p); }
inline void Flatten(const Shape& s, std::vector<Leaf>* out) {
  if (!s.tuple) out->push_back(s.leaf);
  for (auto& k : s.kids) Flatten(k, out);
}

// Conversions between a C++ type and its leaves.
template <typename T, typename = void> struct Model;
template <typename T>
struct IntModel {
  static Shape Sh() { Shape s; s.leaf = {kInt, (int)sizeof(T) * 8, 0}; return s; }
  static void To(const T& x, Leaves* l) { l->push_back(U(absl::uint128(x))); }
  static T From(const Leaves& l, size_t* p) { return static_cast<T>(A(l[(*p)++])); }
};
template <> struct Model<uint8_t> : IntModel<uint8_t> {};
template <> struct Model<uint16_t> : IntModel<uint16_t> {};
template <> struct Model<uint32_t> : IntModel<uint32_t> {};
template <> struct Model<uint64_t> : IntModel<uint64_t> {};
template <> struct Model<absl::uint128> : IntModel<absl::uint128> {};
template <typename B, unsigned __int128 N>
struct Model<D::dpf_internal::IntModNImpl<B, unsigned __int128, N>> {
  using T = D::dpf_internal::IntModNImpl<B, unsigned __int128, N>;
  static Shape Sh() { Shape s; s.leaf = {kMod, (int)sizeof(B) * 8, N}; return s; }
  static void To(const T& x, Leaves* l) { l->push_back(U(absl::uint128(x.value()))); }
  static T From(const Leaves& l, size_t* p) { return T(static_cast<B>(A(l[(*p)++]))); }
};
template <typename B>
struct Model<XorWrapper<B>> {
  using T = XorWrapper<B>;
  static Shape Sh() { Shape s; s.leaf = {kXor, (int)sizeof(B) * 8, 0}; return s; }
  static void To(const T& x, Leaves* l) { l->push_back(U(absl::uint128(x.value()))); }
  static T From(const Leaves& l, size_t* p) { return T(static_cast<B>(A(l[(*p)++]))); }
};
template <typename... E>
struct Model<Tuple<E...>> {
  using T = Tuple<E...>;
  static Shape Sh() { Shape s; s.tuple = true; (s.kids.push_back(Model<E>::Sh()), ...); return s; }
  static void To(const T& x, Leaves* l) {
    std::apply([&](const E&... e) { (Model<E>::To(e, l), ...); }, x.value());
  }
  static T From(const Leaves& l, size_t* p) { return T{Model<E>::From(l, p)...}; }
};
template <typename T> Leaves ToLeaves(const T& x) { Leaves l; Model<T>::To(x, &l); return l; }
template <typename T> T FromLeaves(const Leaves& l) { size_t p = 0; return Model<T>::From(l, &p); }

typedef std::vector<Leaves> Results;
template <typename T>
absl::StatusOr<Results> Conv(absl::StatusOr<std::vector<T>> r) {
  if (!r.ok()) return r.status();
  Results out;
  out.reserve(r->size());
  for (auto& x : *r) out.push_back(ToLeaves<T>(x));
  return out;
}

// Type-erased operations.
struct TypeOps {
  std::string name;
  Shape shape;
  std::vector<Leaf> leaves;
  ValueType type;
  int bits;            // bits of pseudorandomness one element takes (0: security dependent)
  absl::Status (*reg)(DistributedPointFunction&);
  absl::StatusOr<Results> (*until)(const DistributedPointFunction&, int, const std::vector<absl::uint128>&, EvaluationContext&);
  absl::StatusOr<Results> (*next)(const DistributedPointFunction&, const std::vector<absl::uint128>&, EvaluationContext&);
  absl::StatusOr<Results> (*at)(const DistributedPointFunction&, const DpfKey&, int, const std::vector<absl::uint128>&);
  absl::StatusOr<Results> (*at_ctx)(const DistributedPointFunction&, int, const std::vector<absl::uint128>&, EvaluationContext&);
  // stop_after: return false from op after that many levels (-1: never).
  absl::Status (*apply)(const DistributedPointFunction&, const std::vector<const DpfKey*>&, const std::vector<absl::uint128>&, int shift, int stop_after, std::vector<Results>* out, std::vector<int>* levels);
  // As apply, but passes a span of values instead of pointers to keys.
  absl::Status (*apply_val)(const DistributedPointFunction&, const std::vector<DpfKey>&, const std::vector<absl::uint128>&, int shift, std::vector<Results>* out);
  // Generates keys through the typed interface (single level).
  absl::StatusOr<std::pair<DpfKey, DpfKey>> (*gen)(DistributedPointFunction&, absl::uint128, const Leaves&);
  Value (*to_value)(const Leaves&);
  absl::StatusOr<Leaves> (*from_value)(const Value&);
  ValueType (*to_type)();
  // Library arithmetic on leaves.
  Leaves (*lib_add)(const Leaves&, const Leaves&);
  Leaves (*lib_sub)(const Leaves&, const Leaves&);
  Leaves (*lib_neg)(const Leaves&);
  bool (*lib_eq)(const Leaves&, const Leaves&);
  // All operators at once: see LibOps.
  void (*lib_ops)(const Leaves&, const Leaves&, struct LibOps*);
  // Elements that pseudorandom bytes stand for.
  Results (*convert)(absl::string_view);
  // Value correction from two parties' pseudorandom bytes, for element `index`.
  absl::StatusOr<std::vector<Value>> (*correction)(absl::string_view, absl::string_view, int index, const Value&, bool invert);
};
struct LibOps { Leaves plus, plus_eq, minus, minus_eq, neg, plus_self, minus_self, twice, zero; bool eq, ne; };

struct TypeImplBase {};
template <typename T>
TypeOps MakeOps(const std::string& name) {
  TypeOps o;
  o.name = name;
  o.shape = Model<T>::Sh();
  Flatten(o.shape, &o.leaves);
  o.type = TypeProto(o.shape);
  o.bits = 0;
  bool direct = true;
  for (auto& l : o.leaves) { if (l.kind == kMod) direct = false; o.bits += l.bits; }
  if (!direct) o.bits = 0;
  o.reg = [](DistributedPointFunction& d) { return d.RegisterValueType<T>(); };
  o.until = [](const DistributedPointFunction& d, int level, const std::vector<absl::uint128>& p, EvaluationContext& c) {
    return Conv<T>(d.EvaluateUntil<T>(level, p, c));
  };
  o.next = [](const DistributedPointFunction& d, const std::vector<absl::uint128>& p, EvaluationContext& c) {
    return Conv<T>(d.EvaluateNext<T>(p, c));
  };
  o.at = [](const DistributedPointFunction& d, const DpfKey& k, int level, const std::vector<absl::uint128>& p) {
    return Conv<T>(d.EvaluateAt<T>(k, level, p));
  };
  o.at_ctx = [](const DistributedPointFunction& d, int level, const std::vector<absl::uint128>& p, EvaluationContext& c) {
    return Conv<T>(d.EvaluateAt<T>(level, p, c));
  };
#ifndef VT_NO_APPLY
  o.apply = [](const DistributedPointFunction& d, const std::vector<const DpfKey*>& keys, const std::vector<absl::uint128>& p, int shift, int stop_after, std::vector<Results>* out, std::vector<int>* levels) {
    int calls = 0;
    int next_level = 0;
    auto op = [&](absl::Span<const T> values) -> bool {
      Results r;
      for (auto& v : values) r.push_back(ToLeaves<T>(v));
      out->push_back(r);
      if (levels) levels->push_back(next_level++);
      return ++calls != stop_after;
    };
    return d.EvaluateAndApply<T>(absl::MakeConstSpan(keys), p, op, shift);
  };
  o.apply_val = [](const DistributedPointFunction& d, const std::vector<DpfKey>& keys, const std::vector<absl::uint128>& p, int shift, std::vector<Results>* out) {
    auto op = [&](absl::Span<const T> values) -> bool {
      Results r;
      for (auto& v : values) r.push_back(ToLeaves<T>(v));
      out->push_back(r);
      return true;
    };
    return d.EvaluateAndApply<T>(absl::MakeConstSpan(keys), p, op, shift);
  };
#endif
  o.gen = [](DistributedPointFunction& d, absl::uint128 a, const Leaves& b) { return d.GenerateKeys(a, FromLeaves<T>(b)); };
  o.to_value = [](const Leaves& l) { return D::ToValue<T>(FromLeaves<T>(l)); };
  o.from_value = [](const Value& v) -> absl::StatusOr<Leaves> {
    auto r = D::FromValue<T>(v);
    if (!r.ok()) return r.status();
    return ToLeaves<T>(*r);
  };
  o.to_type = [] { return D::ToValueType<T>(); };
  o.lib_add = [](const Leaves& a, const Leaves& b) { T x = FromLeaves<T>(a); x += FromLeaves<T>(b); return ToLeaves<T>(x); };
  o.lib_sub = [](const Leaves& a, const Leaves& b) { T x = FromLeaves<T>(a) - FromLeaves<T>(b); return ToLeaves<T>(x); };
  o.lib_neg = [](const Leaves& a) { T x = -FromLeaves<T>(a); return ToLeaves<T>(x); };
  o.lib_ops = [](const Leaves& la, const Leaves& lb, LibOps* r) {
    const T a = FromLeaves<T>(la), b = FromLeaves<T>(lb);
    r->plus = ToLeaves<T>(T(a + b));
    r->minus = ToLeaves<T>(T(a - b));
    r->neg = ToLeaves<T>(T(-a));
    T x = a; x += b; r->plus_eq = ToLeaves<T>(x);
    x = a; x -= b; r->minus_eq = ToLeaves<T>(x);
    x = a; x += x; r->plus_self = ToLeaves<T>(x);
    x = a; x -= x; r->minus_self = ToLeaves<T>(x);
    x = a; (x += b) += b; r->twice = ToLeaves<T>(x);
    r->zero = ToLeaves<T>(T{});
    r->eq = a == b;
    r->ne = a != b;
  };
  o.convert = [](absl::string_view bytes) {
    Results r;
    for (auto& x : D::dpf_internal::ConvertBytesToArrayOf<T>(bytes)) r.push_back(ToLeaves<T>(x));
    return r;
  };
  o.correction = [](absl::string_view a, absl::string_view b, int i, const Value& v, bool inv) { return D::dpf_internal::ComputeValueCorrectionFor<T>(a, b, i, v, inv); };
  o.lib_eq = [](const Leaves& a, const Leaves& b) { return FromLeaves<T>(a) == FromLeaves<T>(b); };
  return o;
}

// Runs the case on one of the SIMD variants that this CPU and build offer.
inline std::string PickTarget(pbt::Src& s) {
  hwy::SetSupportedTargetsForTest(0);
  hwy::GetChosenTarget().Update(hwy::SupportedTargets());
  static const std::vector<int64_t> targets = hwy::SupportedAndGeneratedTargets();
  int64_t t = targets[s.Draw(targets.size() - 1)];
  hwy::SetSupportedTargetsForTest(t);
  hwy::GetChosenTarget().Update(hwy::SupportedTargets());
  return hwy::TargetName(t);
}

const std::vector<TypeOps>& Types();

inline Leaves DrawValue(pbt::Src& s, const TypeOps& t) {
  Leaves l;
  for (auto& f : t.leaves) l.push_back(s.Edge128(MaxOf(f)));
  return l;
}
// Elements of one block, and pseudorandom bytes they take.
inline int PerBlock(const TypeOps& t) { return t.bits && t.bits <= 128 ? 128 / t.bits : 1; }
inline size_t BytesOf(const TypeOps& t) {
  if (t.bits) return (size_t)(t.bits / 8) * PerBlock(t);
  size_t n = 16;
  for (auto& l : t.leaves) n += l.bits / 8;
  return n;
}
// The documented conversion of pseudorandom bytes to elements.
inline Results ConvertBytes(const TypeOps& t, absl::string_view s) {
  Results out;
  size_t pos = 0;
  auto take = [&](int bits) { u128 x = 0; memcpy(&x, s.data() + pos, bits / 8); pos += bits / 8; return x; };
  if (t.bits) {
    for (int e = 0; e < PerBlock(t); e++) {
      Leaves v;
      for (auto& l : t.leaves) v.push_back(take(l.bits));
      out.push_back(v);
    }
    return out;
  }
  // One element; every component but the last refills the 128-bit pool.
  u128 pool = take(128);
  Leaves v;
  for (size_t i = 0; i < t.leaves.size(); i++) {
    const Leaf& l = t.leaves[i];
    u128 rest;
    if (l.kind == kMod) {
      v.push_back(pool % l.modulus);
      rest = l.bits == 128 ? 0 : (pool / l.modulus) << l.bits;
    } else {
      v.push_back(pool & MaxOf(l));
      rest = pool & ~MaxOf(l);
    }
    if (i + 1 < t.leaves.size()) pool = rest | take(l.bits);
  }
  out.push_back(v);
  return out;
}
inline Leaves Zero(const TypeOps& t) { return Leaves(t.leaves.size(), 0); }

// Security level achievable for `n` elements of Z_N sampled together, as
// documented (128 + 3 - log2 N - log2 n - log2(n+1)).
double Sigma(int n, u128 modulus);
// Largest log domain for which the default security parameter (40 + log
// domain) can be met by this type; 128 for types without Z_N elements.
int MaxLogDomain(const TypeOps& t);

}  // namespace vt
#endif
