#include "dcf_types.h"
namespace vt {
void AddDcfTypes0(std::vector<std::pair<int, DcfOps>>*);
void AddDcfTypes1(std::vector<std::pair<int, DcfOps>>*);
void AddDcfTypes2(std::vector<std::pair<int, DcfOps>>*);
void AddDcfTypes3(std::vector<std::pair<int, DcfOps>>*);
const std::vector<DcfOps>& DcfTypes() {
  static const std::vector<DcfOps>* v = [] {
    std::vector<std::pair<int, DcfOps>> all;
    AddDcfTypes0(&all);
    AddDcfTypes1(&all);
    AddDcfTypes2(&all);
    AddDcfTypes3(&all);
    auto* r = new std::vector<DcfOps>(all.size());
    for (auto& p : all) (*r)[p.first] = p.second;
    return r;
  }();
  return *v;
}
}  // namespace vt
