// the other checksum algorithms (no constant-expression type fingerprints)
#include "store_impl.h"
namespace props {
std::vector<TypeEntry> part1() { return {{"big", run_type<Big, true, false>}, {"plain", run_type<Plain, true, false>}}; }
std::vector<TypeEntry> part2() { return {}; }
std::vector<TypeEntry> part3() { return {}; }
std::vector<TypeEntry> part4() { return {}; }
}
