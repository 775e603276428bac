#include "dpf_types.h"
// One of four parts, so that they compile in parallel.
namespace vt {
constexpr unsigned __int128 kN128 = ((unsigned __int128)1 << 80) - 65;
void AddTypes2(std::vector<std::pair<int, TypeOps>>* r) {
  r->emplace_back(2, MakeOps<uint16_t>("uint16_t"));
  r->emplace_back(6, MakeOps<XorWrapper<absl::uint128>>("XorWrapper<absl::uint128>"));
  r->emplace_back(10, MakeOps<Mod<uint8_t, 251>>("Mod<uint8_t, 251>"));
  r->emplace_back(14, MakeOps<Tuple<uint8_t, uint16_t, uint8_t>>("Tuple<uint8_t, uint16_t, uint8_t>"));
  r->emplace_back(18, MakeOps<Tuple<uint32_t, XorWrapper<uint64_t>>>("Tuple<uint32_t, XorWrapper<uint64_t>>"));
  r->emplace_back(22, MakeOps<Tuple<Mod<absl::uint128, kN128>, Mod<absl::uint128, kN128>>>("Tuple<Mod<absl::uint128, kN128>, Mod<absl::uint128, kN128>>"));
  r->emplace_back(26, MakeOps<Tuple<Tuple<Mod<uint8_t, 251>, uint16_t>, Tuple<Tuple<Mod<uint64_t, 18446744073709551557ull>>, uint8_t>>>("Tuple<Tuple<Mod<uint8_t, 251>, uint16_t>, Tuple<Tuple<Mod<uint64_t, 18446744073709551557ull>>, uint8_t>>"));
  r->emplace_back(31, MakeOps<Mod<uint64_t, 4294967296ull>>("Mod<uint64_t, 4294967296ull>"));
  r->emplace_back(34, MakeOps<Tuple<absl::uint128, absl::uint128, absl::uint128, absl::uint128, absl::uint128>>("Tuple<absl::uint128, absl::uint128, absl::uint128, absl::uint128, absl::uint128>"));
  r->emplace_back(37, MakeOps<Tuple<uint64_t, uint64_t>>("Tuple<uint64_t, uint64_t>"));
  r->emplace_back(41, MakeOps<Tuple<XorWrapper<uint64_t>, XorWrapper<uint32_t>>>("Tuple<XorWrapper<uint64_t>, XorWrapper<uint32_t>>"));
}
}  // namespace vt
