#include "store_impl.h"
namespace props {
std::vector<TypeEntry> part3() { return {{"plain", run_type<Plain>}, {"scalars", run_type<Scal>}, {"aligned 16", run_type<Al16>}, {"aligned 32", run_type<Al32>}, {"big", run_type<Big>}, {"cstrings", run_type<CTxt, false>}}; }
}
