#include "dpf_types.h"
// One of four parts, so that they compile in parallel.
namespace vt {
constexpr unsigned __int128 kN128 = ((unsigned __int128)1 << 80) - 65;
void AddTypes0(std::vector<std::pair<int, TypeOps>>* r) {
  r->emplace_back(0, MakeOps<uint32_t>("uint32_t"));
  r->emplace_back(4, MakeOps<absl::uint128>("absl::uint128"));
  r->emplace_back(8, MakeOps<Mod<uint32_t, 4294967291u>>("Mod<uint32_t, 4294967291u>"));
  r->emplace_back(12, MakeOps<Tuple<uint32_t>>("Tuple<uint32_t>"));
  r->emplace_back(16, MakeOps<Tuple<uint64_t, absl::uint128, uint8_t>>("Tuple<uint64_t, absl::uint128, uint8_t>"));
  r->emplace_back(20, MakeOps<Tuple<uint32_t, Mod<uint64_t, 18446744073709551557ull>>>("Tuple<uint32_t, Mod<uint64_t, 18446744073709551557ull>>"));
  r->emplace_back(24, MakeOps<Tuple<Mod<uint64_t, 18446744073709551557ull>, uint64_t, uint32_t, uint32_t>>("Tuple<Mod<uint64_t, 18446744073709551557ull>, uint64_t, uint32_t, uint32_t>"));
  r->emplace_back(29, MakeOps<XorWrapper<uint16_t>>("XorWrapper<uint16_t>"));
  r->emplace_back(32, MakeOps<Mod<uint16_t, 3>>("Mod<uint16_t, 3>"));
  r->emplace_back(35, MakeOps<Tuple<Mod<uint32_t, 4294967291u>, XorWrapper<uint32_t>>>("Tuple<Mod<uint32_t, 4294967291u>, XorWrapper<uint32_t>>"));
  r->emplace_back(39, MakeOps<Tuple<Mod<uint8_t, 251>, Tuple<uint16_t, XorWrapper<uint64_t>>>>("Tuple<Mod<uint8_t, 251>, Tuple<uint16_t, XorWrapper<uint64_t>>>"));
}
}  // namespace vt
