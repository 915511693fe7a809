#include "types_impl.h"
namespace props {
#define T(...) type_io<__VA_ARGS__>(#__VA_ARGS__)
template <typename X> using Up = data::unique_ptr<X>;
template <typename X> using Vec = data::vector<X>;
std::vector<TypeIo> types5() {
  return {T(data::hash_set<uint16_t>), T(data::hash_set<E2>), T(data::hash_map<uint32_t, data::string>), T(data::hash_map<uint32_t, Vec<uint16_t>>), T(data::hash_map<uint32_t, Vec<uint64_t>>), T(data::hash_map<uint64_t, uint32_t>),
          T(data::hash_map<uint32_t, Up<uint16_t>>), T(data::hash_map<uint32_t, Up<uint32_t>>), T(Vec<data::hash_set<uint32_t>>), T(Vec<data::hash_set<uint64_t>>), T(data::vecvec<uint32_t, uint64_t>), T(data::vecvec<uint32_t, data::string>),
          T(Var<uint8_t, uint16_t>), T(Var<uint8_t, uint64_t>), T(Var<uint8_t, Up<uint16_t>>), T(Var<uint8_t, Up<uint64_t>>), T(Vec<Var<uint8_t, uint16_t>>), T(Vec<Var<uint8_t, uint16_t, uint16_t>>), T(Vec<Tup<uint8_t, uint16_t>>), T(Vec<Tup<uint8_t, uint64_t>>),
          T(cista::bitset<63>), T(cista::bitset<128>), T(Vec<data::bitvec>), T(data::flat_matrix<uint16_t>), T(data::flat_matrix<uint64_t>), T(data::mutable_fws_multimap<uint64_t, uint32_t>), T(Pr<uint16_t, uint16_t>), T(Pr<Pr<uint8_t, uint16_t>, uint32_t>)};
}
}  // namespace props
