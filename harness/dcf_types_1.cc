#include "dcf_types.h"
// One of four parts, so that they compile in parallel.
namespace vt {
constexpr unsigned __int128 kN128 = ((unsigned __int128)1 << 80) - 65;
void AddDcfTypes1(std::vector<std::pair<int, DcfOps>>* r) {
  r->emplace_back(1, MakeDcfOps<uint8_t>());
  r->emplace_back(5, MakeDcfOps<XorWrapper<uint8_t>>());
  r->emplace_back(9, MakeDcfOps<Mod<uint64_t, 18446744073709551557ull>>());
  r->emplace_back(13, MakeDcfOps<Tuple<uint32_t, uint32_t>>());
  r->emplace_back(17, MakeDcfOps<Tuple<Tuple<uint8_t, uint32_t>, uint16_t>>());
  r->emplace_back(21, MakeDcfOps<Tuple<Mod<uint64_t, 18446744073709551557ull>, Tuple<XorWrapper<absl::uint128>, absl::uint128>>>());
  r->emplace_back(25, MakeDcfOps<Tuple<uint16_t, Tuple<Mod<uint32_t, 4294967291u>, uint8_t>, XorWrapper<uint32_t>, Mod<uint64_t, 18446744073709551557ull>>>());
  r->emplace_back(30, MakeDcfOps<XorWrapper<uint64_t>>());
  r->emplace_back(33, MakeDcfOps<Tuple<uint16_t, uint16_t, uint16_t, uint16_t, uint16_t, uint16_t, uint16_t, uint16_t>>());
  r->emplace_back(36, MakeDcfOps<Tuple<XorWrapper<uint16_t>, Mod<uint16_t, 1000>>>());
  r->emplace_back(43, MakeDcfOps<Tuple<uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t>>());
  r->emplace_back(40, MakeDcfOps<Tuple<uint64_t, uint64_t, uint64_t>>());
}
}  // namespace vt
