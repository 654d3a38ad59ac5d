// instantiates the header-only parts of the library that no entry point happens to use, so that they are analysed too
#include "NDArrayUtils.h"
#include "StatFuncs.h"

template class NDArray<double>;
template class NDArray<int64_t>;
template class NDArray<uint32_t>;
template class NDArray<int>;
template class NDArray<bool>;

namespace hlsa_inst
{
  double a(const NDArray<double>& x) { return min(x) + max(x) + sum(x); }
  int64_t b(const NDArray<int64_t>& x) { return min(x) + max(x) + sum(x); }
  double c(const std::vector<double>& x) { return sum(x) + product(x) + isZero(x); }
  int64_t d(const std::vector<int64_t>& x) { return sum(x) + product(x) + isZero(x); }
  double e(const std::vector<std::vector<double>>& m, const std::vector<int64_t>& i) { return marginalProduct(m, i); }
  std::vector<double> f(const NDArray<double>& x, size_t o) { return reduce(x, o); }
  std::vector<int64_t> g(const NDArray<int64_t>& x, size_t o) { return reduce(x, o); }
}
