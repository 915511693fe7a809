#include "store_impl.h"
namespace props {
std::vector<TypeEntry> part2() { return {{"graph", run_type<Graph, true, false>}, {"jagged", run_type<Jagged>}, {"root vector", run_type<RootVec>}, {"root map", run_type<RootMap>}, {"root pointer", run_type<RootPtr>}}; }
}
