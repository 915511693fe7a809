#include "types_impl.h"
namespace props {
#define T(...) type_io<__VA_ARGS__>(#__VA_ARGS__)
std::vector<TypeIo> types1() {
  return {T(A1), T(A2), T(A3), T(A4), T(A5), T(A6), T(AB1), T(AB2), T(AB3), T(SN), T(NS), T(Deep1), T(Deep2), T(En1), T(En2), T(P1), T(P2), T(L1), T(L2), T(Inh1), T(Inh2),
          T(Sec), T(Msec), T(Sec32), T(Tp1), T(Tp2), T(Nst1), T(Nst2), T(Vg1), T(Vg2), T(Tg1), T(Tg2)};
}
}  // namespace props
