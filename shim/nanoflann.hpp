// /repo is written against nanoflann 1.4 and older; 1.5 is installed. This gives the old spelling
// of the two names it uses, with the old meaning (the argument of SearchParams was ignored).
#ifndef VERIF_NANOFLANN_SHIM_HPP_
#define VERIF_NANOFLANN_SHIM_HPP_
#include <Eigen/Core>
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <future>
#include <istream>
#include <limits>
#include <memory>
#include <mutex>
#include <ostream>
#include <stdexcept>
#include <unordered_set>
#include <vector>
#define index_ index
#include_next <nanoflann.hpp>
#undef index_
namespace nanoflann
{
struct SearchParams : public SearchParameters
{
  explicit SearchParams(int checks_ignored = 32, float eps = 0, bool sorted = true)
  : SearchParameters(eps, sorted) {(void)checks_ignored;}
};
}  // namespace nanoflann
#endif  // VERIF_NANOFLANN_SHIM_HPP_
