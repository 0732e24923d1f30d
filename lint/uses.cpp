// Compiled together with the library so that its implicitly declared members
// (constructors of the distance functions, ...) exist in the analysed program.
#include <new>
#include <string>

#include "liblevenshtein/distance/distance.h"
#include "liblevenshtein/distance/merge_and_split_distance.h"
#include "liblevenshtein/distance/standard_distance.h"
#include "liblevenshtein/distance/transposition_distance.h"

namespace levlint {
namespace lld = ::liblevenshtein::distance;
auto make_standard(void *at) -> lld::Distance * { return new (at) lld::StandardDistance(); }
auto make_transposition(void *at) -> lld::Distance * { return new (at) lld::TranspositionDistance(); }
auto make_merge_and_split(void *at) -> lld::Distance * { return new (at) lld::MergeAndSplitDistance(); }
auto call_operator(lld::Distance &d, const std::string &v, const std::string &w) -> std::size_t { return d(v, w); }
auto call_between(lld::Distance &d, const std::string &v, const std::string &w) -> std::size_t { return d.between(v, w); }
} // namespace levlint
