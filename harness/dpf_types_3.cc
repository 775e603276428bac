#include "dpf_types.h"
// One of four parts, so that they compile in parallel.
namespace vt {
constexpr unsigned __int128 kN128 = ((unsigned __int128)1 << 80) - 65;
void AddTypes3(std::vector<std::pair<int, TypeOps>>* r) {
  r->emplace_back(3, MakeOps<uint64_t>("uint64_t"));
  r->emplace_back(7, MakeOps<XorWrapper<uint32_t>>("XorWrapper<uint32_t>"));
  r->emplace_back(11, MakeOps<Mod<absl::uint128, kN128>>("Mod<absl::uint128, kN128>"));
  r->emplace_back(15, MakeOps<Tuple<uint16_t, uint32_t>>("Tuple<uint16_t, uint32_t>"));
  r->emplace_back(19, MakeOps<Tuple<Mod<uint32_t, 4294967291u>, Mod<uint32_t, 4294967291u>, Mod<uint32_t, 4294967291u>>>("Tuple<Mod<uint32_t, 4294967291u>, Mod<uint32_t, 4294967291u>, Mod<uint32_t, 4294967291u>>"));
  r->emplace_back(23, MakeOps<Tuple<Mod<absl::uint128, kN128>, uint64_t, uint64_t>>("Tuple<Mod<absl::uint128, kN128>, uint64_t, uint64_t>"));
  r->emplace_back(27, MakeOps<Tuple<uint8_t, uint8_t, uint8_t>>("Tuple<uint8_t, uint8_t, uint8_t>"));
  r->emplace_back(28, MakeOps<Tuple<uint8_t, XorWrapper<uint32_t>>>("Tuple<uint8_t, XorWrapper<uint32_t>>"));
  r->emplace_back(38, MakeOps<Tuple<Mod<uint64_t, 3>, absl::uint128>>("Tuple<Mod<uint64_t, 3>, absl::uint128>"));
  r->emplace_back(42, MakeOps<Tuple<Mod<absl::uint128, kN128>, uint8_t>>("Tuple<Mod<absl::uint128, kN128>, uint8_t>"));
}
}  // namespace vt
