#include "types_impl.h"
namespace props {
#define T(...) type_io<__VA_ARGS__>(#__VA_ARGS__)
std::vector<TypeIo> types3() {
  return {T(data::hash_map<uint32_t, uint32_t>), T(data::hash_map<uint32_t, uint64_t>), T(data::hash_map<data::string, uint32_t>), T(data::hash_set<uint32_t>), T(data::hash_set<uint64_t>), T(data::hash_set<data::string>),
          T(data::unique_ptr<A1>), T(data::unique_ptr<A4>), T(data::unique_ptr<data::string>), T(Var<uint32_t, data::string>), T(Var<data::string, uint32_t>), T(Var<uint32_t, data::string, uint64_t>), T(Var<uint16_t, data::string>),
          T(cista::optional<uint32_t>), T(cista::optional<uint64_t>), T(cista::optional<data::string>), T(Tup<uint8_t, uint32_t>), T(Tup<uint32_t, uint8_t>), T(Tup<uint8_t, uint32_t, uint8_t>), T(Tup<uint8_t, data::string>),
          T(Pr<uint32_t, uint8_t>), T(Pr<uint8_t, uint32_t>), T(data::vector<Pr<uint32_t, uint8_t>>), T(data::vector<Pr<uint8_t, uint32_t>>), T(data::vecvec<uint32_t, uint16_t>), T(data::vecvec<uint32_t, uint32_t>),
          T(data::mutable_fws_multimap<uint32_t, uint64_t>), T(data::mutable_fws_multimap<uint32_t, uint32_t>), T(data::bitvec), T(data::nvec<uint32_t, uint16_t, 2>), T(data::nvec<uint32_t, uint32_t, 2>),
          T(cista::strong<uint32_t, IdTag>), T(cista::strong<uint64_t, IdTag>)};
}
}  // namespace props
