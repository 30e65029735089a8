// Numerical helpers: interpolation, tabulation, roots, integrals, averages, smoothing, casts.
#include <fstream>
#include <limits>
#include <numeric>

#include "h.h"
#include "smash/average.h"
#include "smash/integrate.h"
#include "smash/interpolation.h"
#include "smash/lowess.h"
#include "smash/numeric_cast.h"
#include "smash/rootsolver.h"
#include "smash/sha256.h"
#include "smash/tabulation.h"

using namespace smash;
using ld = long double;

namespace {
std::vector<double> nodes(h::Rng &rng, int n) {
  std::vector<double> x;
  double at = h::uni(rng, -10, 10);
  for (int i = 0; i < n; i++) {
    x.push_back(at);
    at += h::chance(rng, .2) ? h::uni(rng, 1e-3, 1e-2) : h::uni(rng, .1, 3);
  }
  return x;
}
void shuffle(h::Rng &rng, std::vector<double> &x, std::vector<double> &y) {
  for (size_t i = x.size(); i > 1; i--) {
    const size_t j = size_t(h::below(rng, int(i)));
    std::swap(x[i - 1], x[j]);
    std::swap(y[i - 1], y[j]);
  }
}
/// natural cubic spline by the tridiagonal system for the second derivatives
struct Spline {
  std::vector<ld> x, y, m;
  Spline(const std::vector<double> &X, const std::vector<double> &Y) : x(X.begin(), X.end()), y(Y.begin(), Y.end()), m(X.size(), 0) {
    const size_t n = x.size();
    std::vector<ld> a(n, 0), b(n, 1), c(n, 0), d(n, 0);
    for (size_t i = 1; i + 1 < n; i++) {
      const ld h0 = x[i] - x[i - 1], h1 = x[i + 1] - x[i];
      a[i] = h0, b[i] = 2 * (h0 + h1), c[i] = h1;
      d[i] = 6 * ((y[i + 1] - y[i]) / h1 - (y[i] - y[i - 1]) / h0);
    }
    for (size_t i = 1; i < n; i++) {
      const ld w = a[i] / b[i - 1];
      b[i] -= w * c[i - 1];
      d[i] -= w * d[i - 1];
    }
    for (size_t i = n; i-- > 0;) m[i] = (d[i] - (i + 1 < n ? c[i] * m[i + 1] : 0)) / b[i];
  }
  ld operator()(ld v) const {
    if (v <= x.front()) return y.front();
    if (v >= x.back()) return y.back();
    size_t i = 0;
    while (x[i + 1] < v) i++;
    const ld hh = x[i + 1] - x[i], A = (x[i + 1] - v) / hh, B = (v - x[i]) / hh;
    return A * y[i] + B * y[i + 1] + ((A * A * A - A) * m[i] + (B * B * B - B) * m[i + 1]) * hh * hh / 6;
  }
};
}  // namespace

SECTION(linear) {
  const int n = h::tier(6000);
  for (int c = 0; c < n; c++) {
    const int k = h::chance(rng, .3) ? 2 : h::range(rng, 2, 30);
    std::vector<double> x = nodes(rng, k), y;
    for (int i = 0; i < k; i++) y.push_back(h::uni(rng, -5, 5));
    std::vector<double> xs = x, ys = y;
    shuffle(rng, xs, ys);
    const InterpolateDataLinear<double> f(xs, ys);
    for (int q = 0; q < 30; q++) {
      const int style = h::below(rng, 5);
      const double v = style == 0 ? h::pick(rng, x) : style == 1 ? h::uni(rng, x.back(), x.back() + 5) : style == 2 ? h::uni(rng, x.front() - 5, x.front())
                                                                                             : h::uni(rng, x.front(), x.back());
      size_t i = 0;
      while (i + 2 < x.size() && x[i + 1] < v) i++;
      const ld w = y[i] + (ld(v) - x[i]) * (ld(y[i + 1]) - y[i]) / (ld(x[i + 1]) - x[i]);
      h::at("%d points, x = %.17g", k, v);
      const double slope = std::fabs((y[i + 1] - y[i]) / (x[i + 1] - x[i]));
      if (!(std::fabs(f(v) - double(w)) <= 1e-13 * (10 + slope * 40))) h::fail("linear", "gives %.17g, expected %.17Lg", f(v), w);
      h::evaluated(h::mix(uint64_t(k), uint64_t(int64_t(v * 100))));
    }
    bool thrown = false;
    if (c % 10 == 0) {
      xs.push_back(xs[size_t(h::below(rng, k))]);
      ys.push_back(0.);
      try {
        InterpolateDataLinear<double> bad(xs, ys);
      } catch (std::runtime_error &) {
        thrown = true;
      }
      if (!thrown) h::fail("linear/duplicate", "two points with the same x are accepted");
    }
  }
  // trilinear: exact for a*x*y*z + ... and at the corners
  for (int c = 0; c < n * 5; c++) {
    double k[8];
    for (double &v : k) v = h::uni(rng, -3, 3);
    auto g = [&](double X, double Y, double Z) {
      return k[0] + k[1] * X + k[2] * Y + k[3] * Z + k[4] * X * Y + k[5] * Y * Z + k[6] * X * Z + k[7] * X * Y * Z;
    };
    const double X = h::uni(rng, 0, 1), Y = h::uni(rng, 0, 1), Z = h::uni(rng, 0, 1);
    const double got = interpolate_trilinear<double>(X, Y, Z, g(0, 0, 0), g(1, 0, 0), g(0, 1, 0), g(1, 1, 0), g(0, 0, 1), g(1, 0, 1), g(0, 1, 1), g(1, 1, 1));
    h::at("trilinear at %.17g %.17g %.17g", X, Y, Z);
    if (std::fabs(got - g(X, Y, Z)) > 1e-12) h::fail("trilinear", "gives %.17g, expected %.17g", got, g(X, Y, Z));
    h::evaluated(uint64_t(c));
  }
}

SECTION(spline) {
  const int n = h::tier(4000);
  for (int c = 0; c < n; c++) {
    const int k = h::range(rng, 3, 25);
    std::vector<double> x, y;
    double at = h::uni(rng, -10, 10);
    for (int i = 0; i < k; i++) {
      x.push_back(at);
      at += h::uni(rng, .2, 3);
      y.push_back(h::uni(rng, -5, 5));
    }
    const Spline s(x, y);
    std::vector<double> xs = x, ys = y;
    shuffle(rng, xs, ys);
    const InterpolateDataSpline f(xs, ys);
    for (int q = 0; q < 30; q++) {
      const int style = h::below(rng, 5);
      const double v = style == 0 ? h::pick(rng, x) : style == 1 ? h::uni(rng, x.back(), x.back() + 5) : style == 2 ? h::uni(rng, x.front() - 5, x.front())
                                                                                             : h::uni(rng, x.front(), x.back());
      h::at("%d points, x = %.17g", k, v);
      if (!(std::fabs(f(v) - double(s(v))) <= 1e-9)) h::fail("spline", "gives %.17g, expected %.17Lg", f(v), s(v));
      h::evaluated(h::mix(uint64_t(k), uint64_t(int64_t(v * 100))));
    }
  }
  int thrown = 0;
  const std::vector<std::pair<std::vector<double>, std::vector<double>>> bad = {
      {{1, 2}, {1, 2}}, {{1, 2, 3}, {1, 2}}, {{1, 2, 2}, {1, 2, 3}}, {{}, {}}, {{3, 1, 2, 3}, {1, 2, 3, 4}}};
  for (auto &b : bad) {
    try {
      InterpolateDataSpline f(b.first, b.second);
    } catch (std::runtime_error &) {
      thrown++;
    }
  }
  if (thrown != int(bad.size())) h::fail("spline/reject", "only %d of %zu unusable sets of points are rejected", thrown, bad.size());
}

SECTION(tabulation) {
  const int n = h::tier(3000);
  for (int c = 0; c < n; c++) {
    const double lo = h::uni(rng, -5, 5), range = h::uni(rng, .01, 20);
    const size_t num = size_t(h::chance(rng, .2) ? 2 : h::range(rng, 2, 300));
    const double a = h::uni(rng, -3, 3), b = h::uni(rng, -3, 3), w = h::uni(rng, 0, 2);
    const bool straight = h::chance(rng, .4);
    auto f = [=](double x) { return straight ? a + b * x : a * std::sin(w * x) + b; };
    const Tabulation t(lo, range, num, f);
    const double dx = range / double(num), hi = lo + range;
    const double curve = straight ? 0 : std::fabs(a) * w * w * dx * dx / 8;
    // save and load: same answers, and nothing for another hash
    Tabulation saved = t;
    if (c % 10 == 0) {
      sha256::Hash hash, other;
      for (auto &v : hash) v = uint8_t(rng());
      other = hash;
      other[size_t(h::below(rng, int(other.size())))] ^= uint8_t(1 << h::below(rng, 8));
      {
        std::ofstream o("tab.bin", std::ios::binary);
        t.write(o, hash);
      }
      std::ifstream i1("tab.bin", std::ios::binary), i2("tab.bin", std::ios::binary);
      saved = Tabulation::from_file(i1, hash);
      if (!Tabulation::from_file(i2, other).is_empty()) h::fail("tabulation/hash", "a table saved under another hash is loaded");
      if (saved.is_empty()) h::fail("tabulation/load", "the table is not loaded back"), saved = t;
    }
    for (int q = 0; q < 40; q++) {
      const int style = h::below(rng, 6);
      const int node = h::range(rng, 0, int(num));
      const double x = style == 0 ? lo + node * dx : style == 1 ? h::uni(rng, hi, hi + 2 * range) : style == 2 ? h::uni(rng, lo - 3, lo) : style == 3 ? hi : h::uni(rng, lo, hi);
      h::at("x_min %.17g range %.17g steps %zu x %.17g straight %d", lo, range, num, x, straight);
      const double tol = 1e-11 * (std::fabs(a) + std::fabs(b) * (std::fabs(lo) + 3 * range) + 1) * (1 + 1 / range);
      for (const Extrapolation e : {Extrapolation::Linear, Extrapolation::Const, Extrapolation::Zero}) {
        const double got = t.get_value_linear(x, e);
        double want, slack = tol;
        if (x < lo) want = 0;
        else if (x > hi && e == Extrapolation::Zero) want = 0;
        else if (x > hi && e == Extrapolation::Const) want = f(hi);
        else if (x > hi) {
          const double p = f(hi - dx), q1 = f(hi);
          want = q1 + (q1 - p) * (x - hi) / dx;
          slack = tol * (1 + (x - hi) / dx);
        } else want = f(x), slack += curve * 1.01;
        // rounding decides on which side of an end a point lies
        const bool edge = std::fabs(x - hi) < 1e-12 * (1 + std::fabs(hi));
        if (!(std::fabs(got - want) <= slack) && !edge) h::fail("tabulation/linear", "extrapolation %d gives %.17g, expected %.17g +- %g", int(e), got, want, slack);
        if (edge && e != Extrapolation::Zero && !(std::fabs(got - f(hi)) <= tol * 10 + curve)) h::fail("tabulation/end", "at the end gives %.17g, expected %.17g", got, f(hi));
        if (saved.get_value_linear(x, e) != got) h::fail("tabulation/load", "the loaded table gives %.17g instead of %.17g", saved.get_value_linear(x, e), got);
      }
      const double got = t.get_value_step(x);
      const double r = (x - lo) / dx, frac = std::fabs(r - std::floor(r) - .5);
      if (x < lo) {
        if (got != 0) h::fail("tabulation/step", "below the range the step value is %.17g", got);
      } else if (frac > 1e-6) {
        const double want = f(lo + std::min(double(num), std::floor(r + .5)) * dx);
        if (!(std::fabs(got - want) <= tol)) h::fail("tabulation/step", "step value %.17g, expected %.17g", got, want);
      }
      h::evaluated(h::mix(num, uint64_t(int64_t(x * 1000))));
    }
  }
  remove("tab.bin");
}

SECTION(roots) {
  const int n = h::tier(20000);
  int found = 0, none = 0;
  for (int c = 0; c < n; c++) {
    const double sign = h::chance(rng, .5) ? 1 : -1;
    const double lo = sign > 0 ? h::uni(rng, .01, 5) : h::uni(rng, -15, -6), hi = lo + h::uni(rng, .01, sign > 0 ? 10 : 5);
    const bool inside = h::chance(rng, .7);
    const double r = inside ? h::uni(rng, lo, hi) : hi + h::uni(rng, .01, 5);
    const double s = (h::chance(rng, .5) ? 1 : -1) * std::pow(10., h::uni(rng, -3, 3));
    const int kind = h::below(rng, 4);
    auto f = [=](double x) {
      const double d = x - r;
      switch (kind) {
        case 0: return s * d;
        case 1: return s * (d + d * d * d);
        case 2: return s * std::atan(3 * d);
        default: return s * (std::exp(.7 * d) - 1);
      }
    };
    h::at("kind %d root %.17g in %.17g .. %.17g scale %.17g", kind, r, lo, hi, s);
    RootSolver1D solver(f);
    const auto got = h::chance(rng, .5) ? solver.try_find_root(lo, hi, 300) : solver.try_find_root(hi < lo ? hi : lo, hi, 1000);
    if (!inside && got) h::fail("roots/none", "a root %.17g is reported where there is none", *got);
    if (inside && !got) h::fail("roots/missed", "the root is not found");
    if (inside && got && !(std::fabs(*got - r) <= 1.1e-7 * std::fabs(r))) h::fail("roots/wrong", "%.17g is reported as root", *got);
    (got ? found : none)++;
    h::evaluated(h::mix(uint64_t(kind), uint64_t(int64_t(r * 1000))));
  }
  h::count("roots found", found);
  h::count("no root", none);
}

SECTION(integrals) {
  const int n = h::tier(4000);
  Integrator one;
  for (int c = 0; c < n; c++) {
    const double a = h::uni(rng, -5, 5), b = a + h::uni(rng, .001, 8);
    const int kind = h::below(rng, 4), p = h::range(rng, 0, 6);
    const double k = h::uni(rng, .2, 4), mu = h::uni(rng, a, b);
    double want = 0;
    std::function<double(double)> f;
    switch (kind) {
      case 0: f = [=](double x) { return std::pow(x - a, p); }, want = std::pow(b - a, p + 1) / (p + 1); break;
      case 1: f = [=](double x) { return std::exp(-k * (x - a)); }, want = (1 - std::exp(-k * (b - a))) / k; break;
      case 2: f = [=](double x) { return 1 / (k * k / 4 + (x - mu) * (x - mu)); }, want = 2 / k * (std::atan((b - mu) * 2 / k) - std::atan((a - mu) * 2 / k)); break;
      default: f = [=](double x) { return std::sqrt(x - a); }, want = std::pow(b - a, 1.5) / 1.5; break;
    }
    h::at("integral kind %d power %d k %.17g mu %.17g over %.17g .. %.17g", kind, p, k, mu, a, b);
    const auto r = one(a, b, [&](double x) { return f(x); });
    if (!(std::fabs(r.value() - want) <= 1e-9 + 5e-4 * want) || double(r) != r.value()) h::fail("integral", "gives %.17g, expected %.17g", r.value(), want);
    h::evaluated(h::mix(uint64_t(kind * 10 + p), uint64_t(int64_t(a * 100))));
  }
  Integrator2d two;
  for (int c = 0; c < n / 8; c++) {
    const double a = h::uni(rng, -2, 2), b = a + h::uni(rng, .01, 3), e = h::uni(rng, -2, 2), d = e + h::uni(rng, .01, 3);
    const int p = h::range(rng, 0, 3), q = h::range(rng, 0, 3);
    const double k = h::uni(rng, .2, 2);
    h::at("double integral %.17g .. %.17g, %.17g .. %.17g powers %d %d", a, b, e, d, p, q);
    const auto r = two(a, b, e, d, [=](double x, double y) { return std::pow(x - a, p) * std::pow(d - y, q) + k * std::exp(x - b) * (y - e); });
    const double want = std::pow(b - a, p + 1) / (p + 1) * std::pow(d - e, q + 1) / (q + 1) + k * (1 - std::exp(a - b)) * (d - e) * (d - e) / 2;
    if (!(std::fabs(r.value() - want) <= 1e-9 + 5e-4 * want)) h::fail("integral/2d", "gives %.17g, expected %.17g", r.value(), want);
    h::evaluated(h::mix(uint64_t(p * 10 + q), uint64_t(int64_t(a * 100))));
  }
  int thrown = 0;
  try {
    two(1, 0, 0, 1, [](double, double) { return 1.; });
  } catch (std::invalid_argument &) {
    thrown++;
  }
  try {
    two(0, 1, 1, 0, [](double, double) { return 1.; });
  } catch (std::invalid_argument &) {
    thrown++;
  }
  if (thrown != 2) h::fail("integral/limits", "reversed limits are accepted");
}

SECTION(averages) {
  const int n = h::tier(20000);
  for (int c = 0; c < n; c++) {
    const int k = h::range(rng, 1, 40);
    Average<double> a;
    if (h::chance(rng, .3)) {
      a.add(h::uni(rng, -100, 100));
      a.clear();
    }
    if (a.number_of_values() != 0 || a.average() != 0) h::fail("average/clear", "%llu values after clear", (unsigned long long)a.number_of_values());
    std::vector<double> x, y, wx, wy;
    ld sum = 0;
    for (int i = 0; i < k; i++) {
      const double v = h::uni(rng, -100, 100);
      a.add(v);
      sum += v;
      x.push_back(i && h::chance(rng, .4) ? x.back() : (i ? x.back() : 0) + h::uni(rng, .1, 1));
      y.push_back(v);
    }
    h::at("%d values", k);
    if (a.number_of_values() != uint64_t(k) || std::fabs(a.average() - double(sum / k)) > 1e-10) h::fail("average", "%.17g, expected %.17Lg", a.average(), sum / k);
    for (int i = 0; i < k;) {
      ld s = 0;
      int j = i;
      while (j < k && x[size_t(j)] == x[size_t(i)]) s += y[size_t(j++)];
      wx.push_back(x[size_t(i)]);
      wy.push_back(double(s / (j - i)));
      i = j;
    }
    const auto r = dedup_avg(x, y);
    bool ok = r.first == wx && r.second.size() == wy.size();
    for (size_t i = 0; ok && i < wy.size(); i++) ok = std::fabs(r.second[i] - wy[i]) < 1e-10;
    if (!ok) h::fail("dedup", "%zu points instead of %zu, or wrong averages", r.first.size(), wx.size());
    h::evaluated(h::mix(uint64_t(k), wx.size()));
  }
}

namespace {
/// locally weighted regression, written from its definition
std::vector<double> lowess_oracle(const std::vector<double> &x, const std::vector<double> &y, double span, size_t iter, double *noise) {
  const size_t n = x.size();
  const size_t ns = std::max<size_t>(2, std::min<size_t>(n, size_t(span * double(n) + 1e-7)));
  std::vector<double> ys(n), robust(n, 1.);
  const double range = x.back() - x.front();
  for (size_t it = 0; it <= iter; it++) {
    for (size_t i = 0; i < n; i++) {
      if (i && x[i] == x[i - 1]) {
        ys[i] = ys[i - 1];
        continue;
      }
      std::vector<double> d;
      for (size_t j = 0; j < n; j++) d.push_back(std::fabs(x[j] - x[i]));
      std::vector<double> s = d;
      std::sort(s.begin(), s.end());
      const double hh = s[ns - 1];
      std::vector<ld> w(n, 0);
      ld sum = 0;
      for (size_t j = 0; j < n; j++) {
        if (d[j] > .999 * hh) continue;
        const ld u = d[j] / hh;
        w[j] = d[j] <= .001 * hh ? 1 : std::pow(1 - u * u * u, 3);
        w[j] *= robust[j];
        sum += w[j];
      }
      if (sum <= 0) {
        ys[i] = y[i];
        continue;
      }
      ld mx = 0, my = 0, vx = 0, cxy = 0;
      for (size_t j = 0; j < n; j++) mx += w[j] / sum * x[j], my += w[j] / sum * y[j];
      for (size_t j = 0; j < n; j++) vx += w[j] / sum * (x[j] - mx) * (x[j] - mx), cxy += w[j] / sum * (x[j] - mx) * (y[j] - my);
      const bool line = hh > 0 && std::sqrt(vx) > .001 * range;
      *noise = std::min(*noise, double(std::fabs(std::sqrt(vx) / (.001 * range + 1e-300) - 1)));
      ys[i] = double(my + (line ? cxy / vx * (x[i] - mx) : 0));
    }
    if (it == iter) break;
    std::vector<double> r;
    for (size_t i = 0; i < n; i++) r.push_back(std::fabs(y[i] - ys[i]));
    std::vector<double> s = r;
    std::sort(s.begin(), s.end());
    const double mad = 6 * (n % 2 ? s[n / 2] : .5 * (s[n / 2] + s[n / 2 - 1]));
    *noise = std::min(*noise, mad);
    for (size_t i = 0; i < n; i++) {
      const double u = r[i] / mad;
      robust[i] = mad == 0 ? 0 : u <= .001 ? 1 : u <= .999 ? (1 - u * u) * (1 - u * u) : 0;
      *noise = std::min(*noise, std::fabs(u - .999));
    }
  }
  return ys;
}
}  // namespace

SECTION(smoothing) {
  const int n = h::tier(2500);
  int compared = 0;
  for (int c = 0; c < n; c++) {
    const int k = h::range(rng, 2, 40);
    std::vector<double> x, y;
    const bool ties = h::chance(rng, .3);
    const int kind = h::below(rng, 3);
    const double a = h::uni(rng, -3, 3), b = h::uni(rng, -3, 3);
    for (int i = 0; i < k; i++) {
      x.push_back(i && ties && h::chance(rng, .3) ? x.back() : (i ? x.back() : h::uni(rng, -5, 5)) + h::uni(rng, .05, 1));
      y.push_back(kind == 0 ? a + b * x.back() : std::sin(x.back()) + h::uni(rng, -.5, .5));
    }
    const double span = h::uni(rng, .1, 1);
    const size_t iter = size_t(h::below(rng, 4));
    h::at("%d points kind %d span %.17g iterations %zu ties %d", k, kind, span, iter, ties);
    const auto s = smooth<double>(x, y, span, iter, 0.);
    if (s.size() != x.size()) {
      h::fail("smooth/size", "%zu values", s.size());
      continue;
    }
    double noise = 1;
    const auto w = lowess_oracle(x, y, span, iter, &noise);
    for (size_t i = 0; i < s.size(); i++) {
      if (kind == 0 && iter == 0 && !(std::fabs(s[i] - y[i]) < 2e-3 * std::fabs(b) * (x.back() - x.front()) + 1e-9)) h::fail("smooth/line", "a straight line is bent: %.17g becomes %.17g", y[i], s[i]);
      if ((kind != 0 || iter == 0) && noise > 1e-6 && !(std::fabs(s[i] - w[i]) < 1e-6)) {
        h::fail("smooth", "point %zu is smoothed to %.17g, expected %.17g", i, s[i], w[i]);
        break;
      }
    }
    compared += kind != 0 && noise > 1e-6;
    h::evaluated(h::mix(uint64_t(k), h::mix(iter, uint64_t(span * 100))));
  }
  h::count("compared with the definition", compared);
}

namespace {
template <class To, class From>
void cast(From v) {
  // what the value is, as long double (64 bit mantissa: exact for all these types)
  const ld x = v;
  const bool fits = std::isfinite(double(v)) && x >= ld(std::numeric_limits<To>::lowest()) && x <= ld(std::numeric_limits<To>::max()) &&
                    (std::is_floating_point_v<To> ? ld(To(v)) == x : std::floor(x) == x);
  bool thrown = false;
  To r{};
  try {
    r = numeric_cast<To>(v);
  } catch (std::domain_error &) {
    thrown = true;
  }
  h::at("value %.21Lg, %zu to %zu bytes, signed %d to %d, float %d to %d", x, sizeof(From), sizeof(To), std::is_signed_v<From>, std::is_signed_v<To>,
        std::is_floating_point_v<From>, std::is_floating_point_v<To>);
  if (fits && thrown) h::fail("cast/refused", "a value that fits is refused");
  if (!fits && !thrown) h::fail("cast/changed", "a value that does not fit is turned into %.21Lg", ld(r));
  if (fits && !thrown && ld(r) != x) h::fail("cast/value", "the value becomes %.21Lg", ld(r));
  h::evaluated(h::mix(uint64_t(sizeof(To) * 16 + sizeof(From)), uint64_t(v > From(0) ? std::log2(double(v)) : 0)));
}
template <class From>
void casts(From v) {
  cast<int8_t>(v), cast<uint8_t>(v), cast<int16_t>(v), cast<uint16_t>(v), cast<int32_t>(v), cast<uint32_t>(v);
  cast<int64_t>(v), cast<uint64_t>(v);
}
}  // namespace

SECTION(casts) {
  const int n = h::tier(3000);
  for (int c = 0; c < n; c++) {
    const uint64_t r = rng();
    const int bits = h::range(rng, 0, 63);
    const uint64_t v = h::chance(rng, .3) ? (uint64_t(1) << bits) + uint64_t(h::range(rng, -1, 1)) : r >> bits;
    casts<int8_t>(int8_t(v)), casts<uint8_t>(uint8_t(v)), casts<int16_t>(int16_t(v)), casts<uint16_t>(uint16_t(v));
    casts<int32_t>(int32_t(v)), casts<uint32_t>(uint32_t(v)), casts<int64_t>(int64_t(v)), casts<uint64_t>(v);
    casts<int64_t>(-int64_t(v >> 1));
    // doubles inside the range of the target, and just outside of small types
    double d = (h::chance(rng, .5) ? 1 : -1) * std::floor(std::pow(2., h::uni(rng, 0, 31)));
    if (h::chance(rng, .3)) d += .5;
    cast<int64_t>(d);
    if (std::fabs(d) < 2147483647.) cast<int32_t>(d);
    if (d >= 0) cast<uint32_t>(d), cast<uint64_t>(d);
  }
}
HARNESS_MAIN
