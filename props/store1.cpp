#include "store_impl.h"
namespace props {
std::vector<TypeEntry> part1() { return {{"mix", run_type<Mix>}, {"alt", run_type<Alt>}, {"text", run_type<Txt>}, {"wide", run_type<Wide>}}; }
}
