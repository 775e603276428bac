#include "dcf_types.h"
// One of four parts, so that they compile in parallel.
namespace vt {
constexpr unsigned __int128 kN128 = ((unsigned __int128)1 << 80) - 65;
void AddDcfTypes0(std::vector<std::pair<int, DcfOps>>* r) {
  r->emplace_back(0, MakeDcfOps<uint32_t>());
  r->emplace_back(4, MakeDcfOps<absl::uint128>());
  r->emplace_back(8, MakeDcfOps<Mod<uint32_t, 4294967291u>>());
  r->emplace_back(12, MakeDcfOps<Tuple<uint32_t>>());
  r->emplace_back(16, MakeDcfOps<Tuple<uint64_t, absl::uint128, uint8_t>>());
  r->emplace_back(20, MakeDcfOps<Tuple<uint32_t, Mod<uint64_t, 18446744073709551557ull>>>());
  r->emplace_back(24, MakeDcfOps<Tuple<Mod<uint64_t, 18446744073709551557ull>, uint64_t, uint32_t, uint32_t>>());
  r->emplace_back(29, MakeDcfOps<XorWrapper<uint16_t>>());
  r->emplace_back(32, MakeDcfOps<Mod<uint16_t, 3>>());
  r->emplace_back(35, MakeDcfOps<Tuple<Mod<uint32_t, 4294967291u>, XorWrapper<uint32_t>>>());
  r->emplace_back(39, MakeDcfOps<Tuple<Mod<uint8_t, 251>, Tuple<uint16_t, XorWrapper<uint64_t>>>>());
}
}  // namespace vt
