// Structure-aware mutation of protocol messages by reflection.
#ifndef VERIF_PROTOMUT_H_
#define VERIF_PROTOMUT_H_
#include <string>
#include <vector>
#include "google/protobuf/descriptor.h"
#include "google/protobuf/message.h"
#include "pbt.h"
namespace protomut {
using google::protobuf::FieldDescriptor;
using google::protobuf::Message;
using pbt::Src;

inline std::string MutateBytes(Src& s, std::string b) {
  switch (s.Draw(5)) {
    case 0: b.clear(); break;
    case 1: if (!b.empty()) b[s.Draw(b.size() - 1)] ^= (char)(1u << s.Draw(7)); break;
    case 2: b.resize(s.Draw(b.size())); break;
    case 3: b += s.Str(4); break;
    case 4: b = s.Blob(s.Small(0, 40)); break;
    default: b.insert(s.Draw(b.size()), s.Str(3)); break;
  }
  return b;
}
inline int64_t MutateInt(Src& s, int64_t x) {
  switch (s.Draw(3)) {
    case 0: return x + s.Int(-2, 2);
    case 1: return (int64_t)s.Edge(~0ull);
    case 2: return s.Int(-3, 300);
    default: return x ^ ((int64_t)1 << s.Draw(62));
  }
}

inline void Mutate(Src& s, Message* m, int depth);
inline void MutateField(Src& s, Message* m, const FieldDescriptor* f, int depth) {
  const auto* r = m->GetReflection();
  if (f->is_repeated()) {
    int n = r->FieldSize(*m, f);
    switch (s.Draw(4)) {
      case 0: if (n > 0) r->RemoveLast(m, f); return;
      case 1: r->ClearField(m, f); return;
      case 2: if (n > 1) r->SwapElements(m, f, (int)s.Draw(n - 1), (int)s.Draw(n - 1)); return;
      case 3:
        if (n > 300) return;
        switch (f->cpp_type()) {
          case FieldDescriptor::CPPTYPE_MESSAGE: { Message* x = r->AddMessage(m, f); if (n > 0 && s.Bool()) x->CopyFrom(r->GetRepeatedMessage(*m, f, (int)s.Draw(n - 1))); return; }
          case FieldDescriptor::CPPTYPE_STRING: r->AddString(m, f, n > 0 && s.Bool() ? r->GetRepeatedString(*m, f, (int)s.Draw(n - 1)) : s.Str(5)); return;
          case FieldDescriptor::CPPTYPE_INT32: r->AddInt32(m, f, (int32_t)s.Int(-3, 3)); return;
          case FieldDescriptor::CPPTYPE_INT64: r->AddInt64(m, f, s.Int(-3, 3)); return;
          default: return;
        }
      default:
        if (n == 0) return;
        int i = (int)s.Draw(n - 1);
        if (f->cpp_type() == FieldDescriptor::CPPTYPE_MESSAGE) Mutate(s, r->MutableRepeatedMessage(m, f, i), depth - 1);
        else if (f->cpp_type() == FieldDescriptor::CPPTYPE_STRING) r->SetRepeatedString(m, f, i, MutateBytes(s, r->GetRepeatedString(*m, f, i)));
    }
    return;
  }
  if (s.Chance(1, 8)) { r->ClearField(m, f); return; }
  switch (f->cpp_type()) {
    case FieldDescriptor::CPPTYPE_MESSAGE: Mutate(s, r->MutableMessage(m, f), depth - 1); break;
    case FieldDescriptor::CPPTYPE_STRING: r->SetString(m, f, MutateBytes(s, r->GetString(*m, f))); break;
    case FieldDescriptor::CPPTYPE_INT32: r->SetInt32(m, f, (int32_t)MutateInt(s, r->GetInt32(*m, f))); break;
    case FieldDescriptor::CPPTYPE_INT64: r->SetInt64(m, f, MutateInt(s, r->GetInt64(*m, f))); break;
    case FieldDescriptor::CPPTYPE_UINT32: r->SetUInt32(m, f, (uint32_t)MutateInt(s, r->GetUInt32(*m, f))); break;
    case FieldDescriptor::CPPTYPE_UINT64: r->SetUInt64(m, f, (uint64_t)MutateInt(s, (int64_t)r->GetUInt64(*m, f))); break;
    case FieldDescriptor::CPPTYPE_BOOL: r->SetBool(m, f, s.Bool()); break;
    case FieldDescriptor::CPPTYPE_ENUM: r->SetEnumValue(m, f, (int)s.Pick({0, 1, 2, 3, -1, 1000})); break;
    case FieldDescriptor::CPPTYPE_DOUBLE: r->SetDouble(m, f, s.Pick({0.0, -1.0, 40.0, 128.0, 1e300})); break;
    case FieldDescriptor::CPPTYPE_FLOAT: r->SetFloat(m, f, 1.0f); break;
  }
}
// One edit somewhere in the message; prefers fields that are present.
inline void Mutate(Src& s, Message* m, int depth = 8) {
  const auto* d = m->GetDescriptor();
  if (depth <= 0 || d->field_count() == 0) return;
  std::vector<const FieldDescriptor*> set;
  m->GetReflection()->ListFields(*m, &set);
  const FieldDescriptor* f = !set.empty() && !s.Chance(1, 5) ? set[s.Draw(set.size() - 1)] : d->field((int)s.Draw(d->field_count() - 1));
  MutateField(s, m, f, depth);
}
}  // namespace protomut
#endif
