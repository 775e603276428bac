// C07: values and types survive conversion to and from messages exactly.
// LIBS: core
// SRCS: dpf_types.cc dpf_types_0.cc dpf_types_1.cc dpf_types_2.cc dpf_types_3.cc
#include "dpf/internal/value_type_helpers.h"
#include "dpf_types.h"
#include "pbt.h"
using namespace vt;
using pbt::Src;

const char* const pbt::kRule =
    "A case draws an output type (43 shapes) and a value with weight on the ends of the range, or a message that is a "
    "valid one with parts exchanged, removed, duplicated, re-encoded or pushed out of range, and compares conversion with "
    "an own decision procedure on the message. Non-trivial: a value with a non-zero component, a message that differs "
    "from the valid one, or two type messages that share their kind.";
const std::vector<std::string> pbt::kAssumptions = {
    "a number below 2^64 in the 128-bit encoding denotes the same number as in the 64-bit encoding"};

CASE(roundtrip, 300000, 6000000) {
  const TypeOps& t = s.Pick(Types());
  s.Label("type " + t.name.substr(0, 48));
  Leaves a = DrawValue(s, t);
  NOTE(s, t.name << " " << Show(a));
  Value v = t.to_value(a), want = ValueProto(t.shape, a);
  REQUIRE(v.SerializeAsString() == want.SerializeAsString()) << "message is " << v.ShortDebugString() << ", expected " << want.ShortDebugString();
  auto back = t.from_value(v);
  REQUIRE(back.ok()) << "own message refused: " << back.status();
  REQUIRE(*back == a) << "back-conversion gives " << Show(*back);
  Value w;
  REQUIRE(w.ParseFromString(v.SerializeAsString())) << "does not parse";
  auto back2 = t.from_value(w);
  REQUIRE(back2.ok() && *back2 == a) << "back-conversion differs after serialisation";
  ValueType vt = t.to_type();
  REQUIRE(vt.SerializeAsString() == t.type.SerializeAsString()) << "type message is " << vt.ShortDebugString() << ", expected " << t.type.ShortDebugString();
  s.NonTrivial(a != Zero(t));
}

// Own reading of a message: does it denote a value of the shape, and which?
static bool ReadInteger(const Value::Integer& i, u128* x) {
  if (i.value_case() == Value::Integer::kValueUint64) { *x = i.value_uint64(); return true; }
  if (i.value_case() == Value::Integer::kValueUint128) {
    *x = ((u128)i.value_uint128().high() << 64) | i.value_uint128().low();
    return true;
  }
  return false;
}
static bool Read(const Shape& sh, const Value& v, Leaves* out) {
  if (sh.tuple) {
    if (v.value_case() != Value::kTuple || v.tuple().elements_size() != (int)sh.kids.size()) return false;
    for (size_t i = 0; i < sh.kids.size(); i++) if (!Read(sh.kids[i], v.tuple().elements(i), out)) return false;
    return true;
  }
  u128 x;
  bool ok = sh.leaf.kind == kInt ? v.value_case() == Value::kInteger && ReadInteger(v.integer(), &x)
          : sh.leaf.kind == kXor ? v.value_case() == Value::kXorWrapper && ReadInteger(v.xor_wrapper(), &x)
                                 : v.value_case() == Value::kIntModN && ReadInteger(v.int_mod_n(), &x);
  if (!ok || x > MaxOf(sh.leaf)) return false;
  out->push_back(x);
  return true;
}

static void DrawInteger(Src& s, u128 near, Value::Integer* i) {
  u128 x = s.Chance(2, 3) ? near + s.Int(-2, 2) : s.Edge128(~(u128)0);
  switch (s.Draw(4)) {
    case 0: SetInteger(i, x); break;
    case 1: i->set_value_uint64((uint64_t)x); break;
    case 2: i->mutable_value_uint128()->set_high(s.Chance(1, 2) ? (uint64_t)(x >> 64) : s.Edge(~0ull)); i->mutable_value_uint128()->set_low((uint64_t)x); break;
    case 3: i->mutable_value_uint128(); break;
    default: i->clear_value();
  }
}
static Value::Integer* IntegerOf(Value* v, int kind) {
  return kind == kInt ? v->mutable_integer() : kind == kXor ? v->mutable_xor_wrapper() : v->mutable_int_mod_n();
}
static u128 NearOf(Src& s, const Shape& sh) {
  if (sh.tuple) return 0;
  return s.Bool() ? MaxOf(sh.leaf) : sh.leaf.bits == 128 ? 0 : (u128)1 << sh.leaf.bits;
}
static void MutateValue(Src& s, const Shape& sh, Value* v, int depth) {
  if (sh.tuple && v->value_case() == Value::kTuple && v->tuple().elements_size() > 0 && !s.Chance(1, 3)) {
    auto* el = v->mutable_tuple()->mutable_elements();
    switch (s.Draw(5)) {
      case 0: case 1: case 2: {
        int i = s.Draw(el->size() - 1);
        if (i < (int)sh.kids.size()) return MutateValue(s, sh.kids[i], el->Mutable(i), depth + 1);
        return;
      }
      case 3: el->DeleteSubrange(s.Draw(el->size() - 1), 1); return;
      case 4: *el->Add() = Value(el->Get(s.Draw(el->size() - 1))); return;
      default: el->SwapElements(0, s.Draw(el->size() - 1)); return;
    }
  }
  switch (s.Draw(4)) {
    case 0: case 1:
      if (!sh.tuple) { DrawInteger(s, NearOf(s, sh), IntegerOf(v, sh.leaf.kind)); return; }
      DrawInteger(s, 0, IntegerOf(v, s.Draw(2)));
      return;
    case 2: DrawInteger(s, NearOf(s, sh), IntegerOf(v, s.Draw(2))); return;
    case 3: { Value w; w.mutable_tuple(); int n = s.Draw(2); for (int i = 0; i < n; i++) *w.mutable_tuple()->add_elements() = *v; *v = w; return; }
    default: v->clear_value();
  }
}

CASE(mutated, 400000, 8000000) {
  const TypeOps& t = s.Pick(Types());
  Value v = ValueProto(t.shape, DrawValue(s, t));
  std::string before = v.SerializeAsString();
  for (int n = s.Small(1, 4); n > 0; n--) MutateValue(s, t.shape, &v, 0);
  NOTE(s, t.name << " from " << v.ShortDebugString());
  Leaves want;
  bool ok = Read(t.shape, v, &want);
  auto got = t.from_value(v);
  if (ok) {
    REQUIRE(got.ok()) << "refused: " << got.status();
    REQUIRE(*got == want) << "gives " << Show(*got) << ", expected " << Show(want);
    s.Label("accepted");
  } else {
    REQUIRE(!got.ok()) << "accepted as " << Show(*got);
    REQUIRE(got.status().code() == absl::StatusCode::kInvalidArgument) << "refused with " << got.status();
    s.Label("refused");
  }
  s.NonTrivial(v.SerializeAsString() != before);
}

// A value of one type read as another.
CASE(other_type, 100000, 2000000) {
  const TypeOps &t = s.Pick(Types()), &t2 = s.Pick(Types());
  Leaves a = DrawValue(s, t);
  Value v = t.to_value(a);
  NOTE(s, t.name << " " << Show(a) << " read as " << t2.name);
  Leaves want;
  bool ok = Read(t2.shape, v, &want);
  auto got = t2.from_value(v);
  REQUIRE(got.ok() == ok) << (ok ? "refused" : "accepted");
  if (ok) REQUIRE(*got == want) << "gives " << Show(*got);
  s.NonTrivial(t.name != t2.name);
}

// Arrays of values as they appear in correction words.
template <typename T> void Array(Src& s, const char* name) {
  const int n = D::dpf_internal::ElementsPerBlock<T>();
  Shape sh = Model<T>::Sh();
  std::vector<Leaf> ls;
  Flatten(sh, &ls);
  google::protobuf::RepeatedPtrField<Value> f;
  std::vector<Leaves> want;
  bool ok = true;
  int size = s.Chance(1, 4) ? s.Draw(2 * n) : n;
  bool changed = size != n;
  for (int i = 0; i < size; i++) {
    Leaves l;
    for (auto& x : ls) l.push_back(s.Edge128(MaxOf(x)));
    Value v = ValueProto(sh, l);
    if (s.Chance(1, 4 * n)) { MutateValue(s, sh, &v, 0); changed = true; }
    Leaves r;
    ok = Read(sh, v, &r) && ok;
    want.push_back(r);
    *f.Add() = v;
  }
  ok = ok && size == n;
  NOTE(s, name << " with " << size << " values" << (changed ? ", mutated" : ""));
  auto got = D::dpf_internal::ValuesToArray<T>(f);
  REQUIRE(got.ok() == ok) << (ok ? "refused" : "accepted");
  if (ok) for (int i = 0; i < n; i++) REQUIRE(ToLeaves<T>((*got)[i]) == want[i]) << "element " << i << " differs";
  else REQUIRE(got.status().code() == absl::StatusCode::kInvalidArgument) << got.status();
  s.NonTrivial(n > 1 || changed);
}
CASE(arrays, 100000, 2000000) {
  switch (s.Draw(8)) {
    case 0: return Array<uint8_t>(s, "uint8");
    case 1: return Array<uint16_t>(s, "uint16");
    case 2: return Array<uint32_t>(s, "uint32");
    case 3: return Array<uint64_t>(s, "uint64");
    case 4: return Array<absl::uint128>(s, "uint128");
    case 5: return Array<XorWrapper<uint16_t>>(s, "xor uint16");
    case 6: return Array<Mod<uint32_t, 4294967291u>>(s, "mod 2^32-5");
    case 7: return Array<Tuple<uint8_t, uint16_t>>(s, "tuple(uint8,uint16)");
    default: return Array<Tuple<Mod<uint64_t, 18446744073709551557ull>, uint32_t>>(s, "tuple(mod 2^64-59,uint32)");
  }
}

// Types: equal exactly if they have the same structure.
static std::string Canon(const ValueType& t, bool* valid) {
  auto bits = [](int b) { return std::to_string(b); };
  switch (t.type_case()) {
    case ValueType::kInteger: return "i" + bits(t.integer().bitsize());
    case ValueType::kXorWrapper: return "x" + bits(t.xor_wrapper().bitsize());
    case ValueType::kIntModN: {
      u128 n;
      if (!ReadInteger(t.int_mod_n().modulus(), &n)) { *valid = false; return "?"; }
      return "m" + bits(t.int_mod_n().base_integer().bitsize()) + "/" + pbt::Str128(n);
    }
    case ValueType::kTuple: {
      std::string r = "(";
      for (auto& e : t.tuple().elements()) r += Canon(e, valid) + ",";
      return r + ")";
    }
    default: *valid = false; return "?";
  }
}
static ValueType DrawType(Src& s, int depth) {
  ValueType t;
  static const std::vector<int> bits = {8, 16, 32, 64, 128};
  switch (s.Draw(depth > 2 ? 2 : 3)) {
    case 0: t.mutable_integer()->set_bitsize(s.Pick(bits)); break;
    case 1: t.mutable_xor_wrapper()->set_bitsize(s.Pick(bits)); break;
    case 2: t.mutable_int_mod_n()->mutable_base_integer()->set_bitsize(s.Pick(bits)); SetInteger(t.mutable_int_mod_n()->mutable_modulus(), s.Edge128(~(u128)0)); break;
    default: { t.mutable_tuple(); int n = s.Small(1, 5); for (int i = 0; i < n; i++) *t.mutable_tuple()->add_elements() = DrawType(s, depth + 1); }
  }
  return t;
}
static void MutateType(Src& s, ValueType* t) {
  static const std::vector<int> bits = {8, 16, 32, 64, 128};
  switch (t->type_case()) {
    case ValueType::kInteger: case ValueType::kXorWrapper:
      if (s.Bool()) { auto i = t->has_integer() ? t->integer() : t->xor_wrapper(); if (t->has_integer()) *t->mutable_xor_wrapper() = i; else *t->mutable_integer() = i; return; }
      (t->has_integer() ? t->mutable_integer() : t->mutable_xor_wrapper())->set_bitsize(s.Pick(bits));
      return;
    case ValueType::kIntModN: {
      auto* m = t->mutable_int_mod_n();
      u128 n = 0;
      ReadInteger(m->modulus(), &n);
      switch (s.Draw(4)) {
        case 0: m->mutable_base_integer()->set_bitsize(s.Pick(bits)); return;
        case 1: SetInteger(m->mutable_modulus(), n ^ ((u128)1 << s.Draw(127))); return;
        case 2: m->mutable_modulus()->mutable_value_uint128()->set_high((uint64_t)(n >> 64)); m->mutable_modulus()->mutable_value_uint128()->set_low((uint64_t)n); return;
        case 3: { int b = m->base_integer().bitsize(); t->mutable_integer()->set_bitsize(b); return; }
        default: if (s.Chance(1, 4)) m->clear_modulus(); return;
      }
    }
    case ValueType::kTuple: {
      auto* el = t->mutable_tuple()->mutable_elements();
      if (el->size() == 0) { *el->Add() = DrawType(s, 3); return; }
      switch (s.Draw(5)) {
        case 0: case 1: MutateType(s, el->Mutable(s.Draw(el->size() - 1))); return;
        case 2: el->RemoveLast(); return;
        case 3: *el->Add() = DrawType(s, 3); return;
        case 4: el->SwapElements(0, s.Draw(el->size() - 1)); return;
        default: { ValueType w; *w.mutable_tuple()->add_elements() = *t; *t = w; return; }
      }
    }
    default: *t = DrawType(s, 1);
  }
}
CASE(type_equality, 300000, 6000000) {
  ValueType a = s.Bool() ? s.Pick(Types()).type : DrawType(s, 0), b = s.Chance(1, 8) ? DrawType(s, 0) : a;
  for (int n = s.Small(0, 3); n > 0; n--) MutateType(s, &b);
  if (s.Chance(1, 30)) b.clear_type();
  if (s.Bool()) std::swap(a, b);
  NOTE(s, a.ShortDebugString() << " vs " << b.ShortDebugString());
  bool valid = true;
  std::string ca = Canon(a, &valid), cb = Canon(b, &valid);
  auto r = D::dpf_internal::ValueTypesAreEqual(a, b);
  if (valid) {
    REQUIRE(r.ok()) << "error: " << r.status();
    REQUIRE(*r == (ca == cb)) << "says " << *r;
    s.Label(ca == cb ? "equal" : "different");
  } else {
    // Which malformed parts are looked at is up to the implementation.
    REQUIRE(!r.ok() || !*r) << "malformed types are equal";
    if (!r.ok()) REQUIRE(r.status().code() == absl::StatusCode::kInvalidArgument) << r.status();
    if (a.type_case() == 0 || b.type_case() == 0) REQUIRE(!r.ok()) << "unset type accepted";
    s.Label("malformed");
  }
  s.NonTrivial(a.type_case() == b.type_case());
}
