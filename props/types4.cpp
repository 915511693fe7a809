#include "types_impl.h"
namespace props {
#define T(...) type_io<__VA_ARGS__>(#__VA_ARGS__)
template <typename X> using Up = data::unique_ptr<X>;
template <typename X> using Vec = data::vector<X>;
struct Up1 { uint8_t a_{}; Up<uint16_t> p_; };
struct Up2 { uint8_t a_{}; Up<uint64_t> p_; };
// (one number more or less in every kind of container)
std::vector<TypeIo> types4() {
  return {T(uint32_t), T(int64_t), T(float), T(Up<uint16_t>), T(Up<uint64_t>), T(Up<float>), T(Up1), T(Up2), T(Vec<Up<uint16_t>>), T(Vec<Up<uint64_t>>), T(Vec<int32_t>), T(Vec<int8_t>), T(Vec<double>),
          T(cista::optional<uint16_t>), T(cista::optional<float>), T(Vec<cista::optional<uint16_t>>), T(Vec<cista::optional<uint64_t>>), T(Tup<uint16_t>), T(Tup<uint64_t>), T(Tup<uint64_t, uint64_t>),
          T(Tup<Tup<uint8_t, uint16_t>, uint32_t>), T(std::array<uint8_t, 4>), T(std::array<uint16_t, 4>), T(Vec<std::array<uint16_t, 2>>), T(Vec<std::array<uint16_t, 3>>), T(Vec<E1>), T(Vec<E2>),
          T(Vec<cista::strong<uint16_t, IdTag>>), T(Vec<cista::strong<uint64_t, IdTag>>)};
}
}  // namespace props
