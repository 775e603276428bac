#include "dcf_types.h"
// One of four parts, so that they compile in parallel.
namespace vt {
constexpr unsigned __int128 kN128 = ((unsigned __int128)1 << 80) - 65;
void AddDcfTypes3(std::vector<std::pair<int, DcfOps>>* r) {
  r->emplace_back(3, MakeDcfOps<uint64_t>());
  r->emplace_back(7, MakeDcfOps<XorWrapper<uint32_t>>());
  r->emplace_back(11, MakeDcfOps<Mod<absl::uint128, kN128>>());
  r->emplace_back(15, MakeDcfOps<Tuple<uint16_t, uint32_t>>());
  r->emplace_back(19, MakeDcfOps<Tuple<Mod<uint32_t, 4294967291u>, Mod<uint32_t, 4294967291u>, Mod<uint32_t, 4294967291u>>>());
  r->emplace_back(23, MakeDcfOps<Tuple<Mod<absl::uint128, kN128>, uint64_t, uint64_t>>());
  r->emplace_back(27, MakeDcfOps<Tuple<uint8_t, uint8_t, uint8_t>>());
  r->emplace_back(28, MakeDcfOps<Tuple<uint8_t, XorWrapper<uint32_t>>>());
  r->emplace_back(38, MakeDcfOps<Tuple<Mod<uint64_t, 3>, absl::uint128>>());
  r->emplace_back(42, MakeDcfOps<Tuple<Mod<absl::uint128, kN128>, uint8_t>>());
}
}  // namespace vt
