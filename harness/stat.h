// distributions of samples
#ifndef VERIF_STAT_H
#define VERIF_STAT_H
#include <algorithm>
#include <functional>

#include "h.h"
namespace h {
/// cumulative distribution of a density on [a, b], by integration on a fine grid
struct Cdf {
  std::vector<double> c;
  double a, b, total;
  Cdf(double lo, double hi, const std::function<double(double)> &f, int n = 20000) : c(size_t(n) + 1, 0), a(lo), b(hi) {
    for (int i = 0; i < n; i++) {
      double s = 0;
      for (int k = 0; k < 4; k++) s += f(a + (b - a) * (i + (k + .5) / 4) / n);
      c[size_t(i) + 1] = c[size_t(i)] + s;
    }
    total = c.back() * (b - a) / n / 4;
    const double last = c.back();
    for (auto &x : c) x /= last;
  }
  double operator()(double x) const {
    if (x <= a) return 0;
    if (x >= b) return 1;
    const double t = (x - a) / (b - a) * double(c.size() - 1);
    const size_t i = std::min(size_t(t), c.size() - 2);
    return c[i] + (c[i + 1] - c[i]) * (t - double(i));
  }
};
/// Kolmogorov-Smirnov distance
template <class C>
double distance(std::vector<double> v, C cdf) {
  std::sort(v.begin(), v.end());
  const double n = double(v.size());
  double d = 0;
  for (size_t i = 0; i < v.size(); i++) {
    const double f = cdf(v[i]);
    d = std::max({d, f - double(i) / n, double(i + 1) / n - f});
  }
  return d;
}
/// samples follow the distribution
template <class C>
void follows(const char *key, const char *what, const std::vector<double> &v, C cdf, double slack = 3e-4) {
  const double d = distance(v, cdf);
  count("samples", (long long)v.size());
  if (!(d <= 3.2 / std::sqrt(double(v.size())) + slack)) fail(key, "%s: distance %.4f between %zu samples and the distribution", what, d, v.size());
}
inline auto flat(double a, double b) {
  return [a, b](double x) { return std::min(1., std::max(0., (x - a) / (b - a))); };
}
}  // namespace h
#endif
