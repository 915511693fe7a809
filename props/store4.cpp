#include "store_impl.h"
namespace props {
std::vector<TypeEntry> part4() { return {{"deep", run_type<Deep>}}; }
}
