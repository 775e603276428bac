#include "dpf_types.h"
// One of four parts, so that they compile in parallel.
namespace vt {
constexpr unsigned __int128 kN128 = ((unsigned __int128)1 << 80) - 65;
void AddTypes1(std::vector<std::pair<int, TypeOps>>* r) {
  r->emplace_back(1, MakeOps<uint8_t>("uint8_t"));
  r->emplace_back(5, MakeOps<XorWrapper<uint8_t>>("XorWrapper<uint8_t>"));
  r->emplace_back(9, MakeOps<Mod<uint64_t, 18446744073709551557ull>>("Mod<uint64_t, 18446744073709551557ull>"));
  r->emplace_back(13, MakeOps<Tuple<uint32_t, uint32_t>>("Tuple<uint32_t, uint32_t>"));
  r->emplace_back(17, MakeOps<Tuple<Tuple<uint8_t, uint32_t>, uint16_t>>("Tuple<Tuple<uint8_t, uint32_t>, uint16_t>"));
  r->emplace_back(21, MakeOps<Tuple<Mod<uint64_t, 18446744073709551557ull>, Tuple<XorWrapper<absl::uint128>, absl::uint128>>>("Tuple<Mod<uint64_t, 18446744073709551557ull>, Tuple<XorWrapper<absl::uint128>, absl::uint128>>"));
  r->emplace_back(25, MakeOps<Tuple<uint16_t, Tuple<Mod<uint32_t, 4294967291u>, uint8_t>, XorWrapper<uint32_t>, Mod<uint64_t, 18446744073709551557ull>>>("Tuple<uint16_t, Tuple<Mod<uint32_t, 4294967291u>, uint8_t>, XorWrapper<uint32_t>, Mod<uint64_t, 18446744073709551557ull>>"));
  r->emplace_back(30, MakeOps<XorWrapper<uint64_t>>("XorWrapper<uint64_t>"));
  r->emplace_back(33, MakeOps<Tuple<uint16_t, uint16_t, uint16_t, uint16_t, uint16_t, uint16_t, uint16_t, uint16_t>>("Tuple<uint16_t, uint16_t, uint16_t, uint16_t, uint16_t, uint16_t, uint16_t, uint16_t>"));
  r->emplace_back(36, MakeOps<Tuple<XorWrapper<uint16_t>, Mod<uint16_t, 1000>>>("Tuple<XorWrapper<uint16_t>, Mod<uint16_t, 1000>>"));
  r->emplace_back(43, MakeOps<Tuple<uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t>>("Tuple<uint8_t x 16>"));
  r->emplace_back(40, MakeOps<Tuple<uint64_t, uint64_t, uint64_t>>("Tuple<uint64_t, uint64_t, uint64_t>"));
}
}  // namespace vt
