#include "types_impl.h"
namespace props {
#define T(...) type_io<__VA_ARGS__>(#__VA_ARGS__)
std::vector<TypeIo> types2() {
  return {T(data::vector<uint32_t>), T(data::vector<uint16_t>), T(data::vector<uint64_t>), T(data::vector<data::vector<uint32_t>>), T(data::vector<data::vector<uint64_t>>), T(V64), T(V16),
          T(data::vector<float>), T(data::string), T(data::vector<data::string>), T(data::u16string), T(data::u32string), T(data::vector<data::u16string>),
          T(data::vector<bool>), T(std::array<uint32_t, 2>), T(std::array<uint32_t, 3>), T(std::array<uint64_t, 2>), T(std::array<data::vector<uint32_t>, 2>), T(std::array<data::vector<uint16_t>, 2>),
          T(std::array<std::array<uint32_t, 2>, 3>), T(std::array<std::array<uint32_t, 3>, 2>), T(std::array<data::string, 2>), T(cista::bitset<64>), T(cista::bitset<200>), T(cista::bitset<220>)};
}
}  // namespace props
