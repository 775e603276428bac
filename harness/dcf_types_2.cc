#include "dcf_types.h"
// One of four parts, so that they compile in parallel.
namespace vt {
constexpr unsigned __int128 kN128 = ((unsigned __int128)1 << 80) - 65;
void AddDcfTypes2(std::vector<std::pair<int, DcfOps>>* r) {
  r->emplace_back(2, MakeDcfOps<uint16_t>());
  r->emplace_back(6, MakeDcfOps<XorWrapper<absl::uint128>>());
  r->emplace_back(10, MakeDcfOps<Mod<uint8_t, 251>>());
  r->emplace_back(14, MakeDcfOps<Tuple<uint8_t, uint16_t, uint8_t>>());
  r->emplace_back(18, MakeDcfOps<Tuple<uint32_t, XorWrapper<uint64_t>>>());
  r->emplace_back(22, MakeDcfOps<Tuple<Mod<absl::uint128, kN128>, Mod<absl::uint128, kN128>>>());
  r->emplace_back(26, MakeDcfOps<Tuple<Tuple<Mod<uint8_t, 251>, uint16_t>, Tuple<Tuple<Mod<uint64_t, 18446744073709551557ull>>, uint8_t>>>());
  r->emplace_back(31, MakeDcfOps<Mod<uint64_t, 4294967296ull>>());
  r->emplace_back(34, MakeDcfOps<Tuple<absl::uint128, absl::uint128, absl::uint128, absl::uint128, absl::uint128>>());
  r->emplace_back(37, MakeDcfOps<Tuple<uint64_t, uint64_t>>());
  r->emplace_back(41, MakeDcfOps<Tuple<XorWrapper<uint64_t>, XorWrapper<uint32_t>>>());
}
}  // namespace vt
