// Random numbers follow the distributions they are named after.
#include <functional>

#include "h.h"
#include "smash/angles.h"
#include "smash/distributions.h"
#include "smash/random.h"

using namespace smash;

namespace {
int N() { return h::tier(200000, 5); }
double bound(int n) { return 5 / std::sqrt(double(n)); }
void reseed(h::Rng &rng) { random::set_seed(rng()); }
/// cumulative distribution of a density on [a, b], by integration on a fine grid
struct Cdf {
  std::vector<double> c;
  double a, b;
  Cdf(double lo, double hi, const std::function<double(double)> &f, int n = 20000) : c(size_t(n) + 1, 0), a(lo), b(hi) {
    for (int i = 0; i < n; i++) {
      double s = 0;
      for (int k = 0; k < 4; k++) s += f(a + (b - a) * (i + (k + .5) / 4) / n);
      c[size_t(i) + 1] = c[size_t(i)] + s;
    }
    for (auto &x : c) x /= c.back();
  }
  double operator()(double x) const {
    if (x <= a) return 0;
    if (x >= b) return 1;
    const double t = (x - a) / (b - a) * double(c.size() - 1);
    const size_t i = std::min(size_t(t), c.size() - 2);
    return c[i] + (c[i + 1] - c[i]) * (t - double(i));
  }
};
template <class F, class C>
void continuous(const char *key, const std::string &what, double lo, double hi, F draw, C cdf, int n = N()) {
  std::vector<double> v;
  v.reserve(size_t(n));
  for (int i = 0; i < n; i++) {
    const double x = draw();
    const double eps = 1e-9 * (1 + std::fabs(x));
    if (!(x >= lo - eps && x <= hi + eps)) {
      h::fail(key, "%s: %.12g outside of [%g, %g]", what.c_str(), x, lo, hi);
      return;
    }
    v.push_back(x);
  }
  std::sort(v.begin(), v.end());
  double d = 0;
  for (int i = 0; i < n; i++) {
    const double f = cdf(v[size_t(i)]);
    d = std::max({d, f - double(i) / n, double(i + 1) / n - f});
  }
  h::count("samples", n);
  if (!(d <= bound(n) + 2e-4)) h::fail(key, "%s: distance %.4f between %d samples and the distribution", what.c_str(), d, n);
  h::sample("%s: distance %.4f", what.c_str(), d);
}
/// integers: every value against its probability
template <class F>
void integers(const char *key, const std::string &what, F draw, const std::vector<double> &p, int first, double slack = 0, int n = N()) {
  std::vector<long> got(p.size(), 0);
  for (int i = 0; i < n; i++) {
    const int x = draw() - first;
    if (x < 0 || (x >= int(p.size()) && slack == 0) || (x < int(p.size()) && p[size_t(x)] == 0)) {
      h::fail(key, "%s: %d came up", what.c_str(), x + first);
      return;
    }
    if (x < int(p.size())) got[size_t(x)]++;
  }
  double sum = 0;
  for (double q : p) sum += q;
  double d = 0, f = 0, g = 0;
  for (size_t i = 0; i < p.size(); i++) {
    f += p[i] / sum, g += double(got[i]) / n;
    d = std::max(d, std::fabs(f - g));
    const double q = p[i] / sum, dev = std::fabs(double(got[i]) - n * q);
    if (slack == 0 && dev > 6 * std::sqrt(n * q * (1 - q)) + 8) h::fail(key, "%s: %d came up %ld times of %d, expected %.1f", what.c_str(), int(i) + first, got[i], n, n * q);
  }
  h::count("samples", n);
  if (!(d <= bound(n) + slack)) h::fail(key, "%s: distance %.4f between %d samples and the distribution", what.c_str(), d, n);
}
std::string str(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string str(const char *fmt, ...) {
  char b[200];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  h::at("%s", b);
  return b;
}
double lu(h::Rng &rng, double a, double b) { return std::exp(h::uni(rng, std::log(a), std::log(b))); }
}  // namespace

SECTION(uniform) {
  for (int k = 0; k < 6; k++) {
    reseed(rng);
    const double a = h::uni(rng, -10, 10), b = a + lu(rng, 1e-3, 1e3);
    h::evaluated(str("uniform %g %g", a, b));
    auto cdf = [=](double x) { return (x - a) / (b - a); };
    continuous("uniform", str("uniform %g %g", a, b), a, b, [&] { return random::uniform(a, b); }, cdf);
    auto dist = random::make_uniform_distribution(a, b);
    continuous("uniform", str("uniform_dist %g %g", a, b), a, b, dist, cdf);
    const int i = h::range(rng, -20, 20), n = h::range(rng, 1, 40);
    integers("uniform_int", str("uniform_int %d %d", i, i + n - 1), [&] { return random::uniform_int(i, i + n - 1); }, std::vector<double>(size_t(n), 1.), i);
  }
  double top = 0, bottom = 1;
  for (int i = 0; i < 10 * N(); i++) {
    const double a = random::canonical(), b = random::canonical_nonzero();
    if (!(a >= 0 && a < 1)) h::fail("canonical", "canonical number %g", a);
    if (!(b > 0 && b <= 1)) h::fail("canonical", "nonzero canonical number %g", b);
    top = std::max(top, a), bottom = std::min(bottom, a);
  }
  continuous("canonical", "canonical", 0, 1, [&] { return random::canonical(); }, [](double x) { return x; });
  continuous("canonical", "canonical_nonzero", 0, 1, [&] { return random::canonical_nonzero(); }, [](double x) { return x; });
  // 53 random bits, not fewer: repeated values are rare
  std::vector<double> v;
  for (int i = 0; i < 200000; i++) v.push_back(random::canonical());
  std::sort(v.begin(), v.end());
  const long same = std::distance(v.begin(), std::unique(v.begin(), v.end()));
  if (same < 200000 - 2) h::fail("canonical", "%ld of 200000 numbers are different", same);
  // two seeds differ, one seed repeats
  for (int k = 0; k < 50; k++) {
    const uint64_t s = rng();
    auto seq = [](uint64_t x) {
      random::set_seed(x);
      std::vector<double> r;
      for (int i = 0; i < 20; i++) r.push_back(random::canonical());
      return r;
    };
    const auto a = seq(s), b = seq(s), c = seq(s + 1);
    if (a != b) h::fail("seed", "the same seed gives other numbers");
    if (a == c) h::fail("seed", "another seed gives the same numbers");
    const int64_t g = random::generate_63bit_seed(), g2 = random::generate_63bit_seed();
    if (g < 0 || g2 < 0) h::fail("seed", "negative seed");
    if (g == g2) h::fail("seed", "the same seed was generated twice");
  }
}
SECTION(shapes) {
  for (int k = 0; k < 6; k++) {
    reseed(rng);
    {
      const double l = lu(rng, 1e-2, 1e2);
      h::evaluated(str("exponential %g", l));
      continuous("exponential", str("exponential %g", l), 0, INFINITY, [&] { return random::exponential(l); }, [=](double x) { return -std::expm1(-l * x); });
    }
    {
      const double A = lu(rng, .1, 20), x2 = h::uni(rng, -5, 3), x1 = x2 + lu(rng, .01, 5);
      h::evaluated(str("expo %g %g %g", A, x1, x2));
      continuous("expo", str("expo %g %g %g", A, x1, x2), x2, x1, [&] { return random::expo(A, x1, x2); },
                 [=](double x) { return std::expm1(A * (x - x2)) / std::expm1(A * (x1 - x2)); });
    }
    {
      const double n = h::chance(rng, .3) ? -1 + h::uni(rng, -5e-4, 5e-4) : h::uni(rng, -4, 4), a = lu(rng, .1, 10), b = a * (1 + lu(rng, .1, 10));
      const bool neg = h::chance(rng, .3) && std::fabs(n + 1) > 2e-3;
      const double n1 = n + 1;
      auto cdf = [=](double x) { return std::fabs(n1) < 1e-3 ? std::log(x / a) / std::log(b / a) : (std::pow(x, n1) - std::pow(a, n1)) / (std::pow(b, n1) - std::pow(a, n1)); };
      h::evaluated(str("power %g %g %g", n, a, b));
      if (neg)
        continuous("power", str("power %g %g %g", n, -b, -a), a, b, [&] { return -random::power(n, -b, -a); }, cdf);
      else
        continuous("power", str("power %g %g %g", n, a, b), a, b, [&] { return random::power(n, a, b); }, cdf);
    }
    {
      const double m = h::uni(rng, .5, 2), w = lu(rng, .005, .5), a = m - lu(rng, .01, 1), b = m + h::uni(rng, -.005, 2);
      const double u = std::atan((a - m) / w), v = std::atan((b - m) / w);
      h::evaluated(str("cauchy %g %g %g %g", m, w, a, b));
      continuous("cauchy", str("cauchy %g %g %g %g", m, w, a, b), a, b, [&] { return random::cauchy(m, w, a, b); },
                 [=](double x) { return (std::atan((x - m) / w) - u) / (v - u); });
    }
    {
      const double a = h::uni(rng, .5, 6), b = h::uni(rng, .5, 6);
      h::evaluated(str("beta %g %g", a, b));
      // substitute the square to make the density finite at both ends
      const Cdf c(0, M_PI / 2, [=](double t) { return std::pow(std::sin(t), 2 * a - 1) * std::pow(std::cos(t), 2 * b - 1); });
      continuous("beta", str("beta %g %g", a, b), 0, 1, [&] { return random::beta(a, b); }, [=](double x) { return c(std::asin(std::sqrt(x))); });
    }
    {
      const double xm = lu(rng, 1e-4, .5), b = h::uni(rng, .2, 7);
      h::evaluated(str("beta_a0 %g %g", xm, b));
      const Cdf c(std::log(xm), 0, [=](double y) { return std::pow(1 - std::exp(y), b); });
      continuous("beta_a0", str("beta_a0 %g %g", xm, b), xm, 1, [&] { return random::beta_a0(xm, b); }, [=](double x) { return c(std::log(x)); });
    }
    {
      const double m = h::uni(rng, -5, 5), s = lu(rng, .1, 10);
      h::evaluated(str("normal %g %g", m, s));
      continuous("normal", str("normal %g %g", m, s), -INFINITY, INFINITY, [&] { return random::normal(m, s); }, [=](double x) { return .5 * std::erfc(-(x - m) / s / M_SQRT2); });
    }
  }
}
SECTION(counts) {
  for (int k = 0; k < 8; k++) {
    reseed(rng);
    const double lam = lu(rng, .05, 40);
    std::vector<double> p;
    for (int i = 0; i < 200; i++) p.push_back(std::exp(i * std::log(lam) - lam - std::lgamma(i + 1.)));
    h::evaluated(str("poisson %g", lam));
    integers("poisson", str("poisson %g", lam), [&] { return random::poisson(lam); }, p, 0);
    const int n = h::range(rng, 1, 60);
    const double q = h::uni(rng, .02, .98);
    p.clear();
    for (int i = 0; i <= n; i++) p.push_back(std::exp(std::lgamma(n + 1.) - std::lgamma(i + 1.) - std::lgamma(n - i + 1.) + i * std::log(q) + (n - i) * std::log1p(-q)));
    h::evaluated(str("binomial %d %g", n, q));
    integers("binomial", str("binomial %d %g", n, q), [&] { return random::binomial(n, q); }, p, 0);
    std::vector<double> w(size_t(h::range(rng, 1, 30)));
    for (auto &x : w) x = h::chance(rng, .2) ? 0 : lu(rng, 1e-3, 10);
    w[size_t(h::below(rng, int(w.size())))] = 1;
    h::evaluated(str("discrete %zu", w.size()));
    random::discrete_dist<double> d(w), e;
    integers("discrete", str("discrete_dist of %zu", w.size()), [&] { return d(); }, w, 0);
    if (e() != 0) h::fail("discrete", "a discrete distribution without weights gives another number than zero");
    e.reset_weights(w);
    integers("discrete", str("reset discrete_dist of %zu", w.size()), [&] { return e(); }, w, 0);
  }
}
SECTION(bessel) {
  int both[2] = {0, 0};
  for (int k = 0; k < h::tier(60, 6); k++) {
    reseed(rng);
    int diff = h::chance(rng, .2) ? 0 : h::range(rng, -40, 40);
    if (h::chance(rng, .15)) diff *= 8;
    double m1 = lu(rng, .01, 30), m2 = lu(rng, .01, 30);
    if (h::chance(rng, .2)) m1 *= 20, m2 *= 20;
    if (h::chance(rng, .03)) m1 = 0;
    const int M = std::abs(diff);
    const double a = 2 * std::sqrt(m1 * m2), m = .5 * (std::sqrt(a * a + M * M) - M);
    const bool gauss = m >= 6;
    both[gauss]++;
    // P(n) ~ (m1 m2)^n / n! / (n + |N|)!
    std::vector<double> p;
    double largest = -INFINITY;
    const int most = int(m + 40 + 12 * std::sqrt(m));
    for (int i = 0; i <= most; i++) {
      p.push_back(m1 * m2 > 0 ? i * std::log(m1 * m2) - std::lgamma(i + 1.) - std::lgamma(i + M + 1.) : (i ? -INFINITY : 0));
      largest = std::max(largest, p.back());
    }
    double sum = 0, mean = 0, var = 0;
    for (auto &x : p) x = std::exp(x - largest), sum += x;
    for (size_t i = 0; i < p.size(); i++) p[i] /= sum, mean += p[i] * double(i);
    for (size_t i = 0; i < p.size(); i++) var += p[i] * std::pow(double(i) - mean, 2);
    const auto what = str("Bessel sampler %.9g %.9g %d", m1, m2, diff);
    h::evaluated(what);
    random::BesselSampler s(m1, m2, diff);
    const int n = N() / 2;
    double got = 0, gvar = 0;
    bool wrong = false;
    auto draw = [&] {
      const auto x = s.sample();
      if (!wrong && x.first - x.second != diff) h::fail("difference", "%s: %d - %d", what.c_str(), x.first, x.second), wrong = true;
      if (!wrong && (x.first < 0 || x.second < 0)) h::fail("negative", "%s: negative number %d, %d", what.c_str(), x.first, x.second), wrong = true;
      const int lo = std::min(x.first, x.second);
      got += lo, gvar += (lo - mean) * (lo - mean);
      return std::max(lo, 0);
    };
    integers("bessel", what, draw, p, 0, gauss ? .03 : 1e-9, n);
    got /= n, gvar /= n;
    if (wrong) continue;
    // the Gaussian is cut at zero, that shifts its moments a little; rounding to integers adds 1/12 to its variance
    const double sd = std::sqrt(var), cut = gauss ? sd * .02 * std::exp(-(mean - 6) / 4) + 1e-9 : 1e-9;
    if (std::fabs(got - mean) > 6 * sd / std::sqrt(n) + cut) h::fail("mean", "%s: mean %.6g, expected %.6g", what.c_str(), got, mean);
    if (std::fabs(gvar - var) > 8 * std::max(var, sd) / std::sqrt(n) + (gauss ? 1. / 12 + .03 * var : 1e-9)) h::fail("variance", "%s: variance %.6g, expected %.6g", what.c_str(), gvar, var);
  }
  h::count("direct", both[0]), h::count("gaussian", both[1]);
}
SECTION(thermal) {
  for (int k = 0; k < 12; k++) {
    reseed(rng);
    const double T = lu(rng, .02, .5);
    double m = T * lu(rng, .01, 40);
    if (h::chance(rng, .15)) m = T / .6 * h::uni(rng, .99, 1.01);
    if (h::chance(rng, .1)) m = 0;
    const auto what = str("thermal momenta T=%.6g m=%.6g", T, m);
    h::evaluated(what);
    const double top = std::sqrt(std::pow(m + 40 * T, 2) - m * m);
    const Cdf c(0, top, [=](double p) { return p * p * std::exp(-(std::sqrt(p * p + m * m) - m) / T); });
    continuous("thermal", what, 0, INFINITY, [&] { return sample_momenta_from_thermal(T, m); }, c);
  }
}
SECTION(offequilibrium) {
  for (int k = 0; k < 8; k++) {
    reseed(rng);
    const double T = lu(rng, .05, .5), m = T * lu(rng, .05, 20);
    {
      const auto what = str("off-equilibrium momenta T=%.6g m=%.6g", T, m);
      h::evaluated(what);
      const double top = std::sqrt(2500 * T * T - m * m);
      const Cdf c(0, top, [=](double p) { return p * p * p * std::exp(-(std::sqrt(p * p + m * m) - m) / T); });
      continuous("noneq", what, 0, top, [&] { return sample_momenta_non_eq_mass(T, m); }, c, N() / 4);
    }
    h::evaluated(str("massless off-equilibrium momenta T=%.6g", T));
    const Cdf c1(0, 50 * T, [=](double p) { const double x = p / T; return (3. / 20 * x * x - 6. / 5 * x + 14. / 5) * std::exp(-x) * x * x; });
    continuous("1M", str("1M_IC T=%.6g", T), 0, 50 * T, [&] { return sample_momenta_1M_IC(T, 0); }, c1, N() / 4);
    const Cdf c2(0, 50 * T, [=](double p) { const double x = p / T; return (.75 + x * x / 8 - x * x * x / 30 + x * x * x * x / 480) * std::exp(-x) * x * x; });
    continuous("2M", str("2M_IC T=%.6g", T), 0, 50 * T, [&] { return sample_momenta_2M_IC(T, 0); }, c2, N() / 4);
    const Cdf c3(0, 60 * T, [=](double p) { return p * p * p * std::exp(-p / (.75 * T)); });
    continuous("ES", str("IC_ES T=%.6g", T), 0, INFINITY, [&] { return sample_momenta_IC_ES(T); }, c3);
    for (int i = 0; i < 200; i++) {
      const double p1 = sample_momenta_1M_IC(T, m), p2 = sample_momenta_2M_IC(T, m);
      if (!(p1 >= 0 && p1 <= 50 * T && p2 >= 0 && p2 <= 50 * T)) h::fail("1M", "momenta %g and %g of mass %g at T=%g", p1, p2, m, T);
    }
  }
}
SECTION(formulas) {
  for (int k = 0; k < h::tier(20000); k++) {
    const double m = h::uni(rng, 0, 4), M = h::uni(rng, .1, 3), G = lu(rng, 1e-4, 1), T = lu(rng, .03, 1), E = h::uni(rng, 0, 5), p2 = h::uni(rng, 0, 9);
    h::at("m=%.17g M=%.17g G=%.17g T=%.17g E=%.17g p2=%.17g", m, M, G, T, E, p2);
    h::evaluated(uint64_t(k));
    if (!h::close(breit_wigner(m, M, G), 2 * m * m * G / M_PI / (std::pow((m - M) * (m + M), 2) + m * m * G * G), 1e-9, 1e-300)) h::fail("breit_wigner", "relativistic Breit-Wigner function");
    if (!h::close(breit_wigner_nonrel(m, M, G), G / 2 / M_PI / ((m - M) * (m - M) + G * G / 4), 1e-9)) h::fail("breit_wigner", "non-relativistic Breit-Wigner function");
    if (!h::close(cauchy(m, M, G), G / M_PI / ((m - M) * (m - M) + G * G), 1e-9)) h::fail("cauchy", "Cauchy function");
    if (!h::close(density_integrand_mass(E, p2, T), std::pow(p2, 1.5) * std::exp(-E / T), 1e-9, 1e-300)) h::fail("integrand", "density with mass");
    const double x = std::sqrt(p2) / T, y = E / T;
    if (!h::close(density_integrand_1M_IC(E, p2, T), (.15 * x * x - 1.2 * y + 2.8) * std::exp(-y) * p2, 1e-6, 1e-9)) h::fail("integrand", "density 1M");
    if (!h::close(density_integrand_2M_IC(E, p2, T), (.75 + x * x / 8 - x * x * y / 30 + x * x * x * x / 480) * std::exp(-y) * p2, 1e-6, 1e-9)) h::fail("integrand", "density 2M");
    const double mu = h::uni(rng, -1, m), p = std::sqrt(p2);
    for (int s = -1; s <= 1; s++) {
      const double arg = (std::sqrt(p2 + m * m) - mu) / T;
      if (arg < 1e-3) continue;
      const double want = s == 0 ? std::exp(-arg) : s > 0 ? 1 / (std::exp(arg) + 1) : 1 / std::expm1(arg);
      if (!h::close(juttner_distribution_func(p, m, T, mu, s), want, 1e-7)) h::fail("juttner", "Juttner function with statistics %d: %.12g, expected %.12g", s, juttner_distribution_func(p, m, T, mu, s), want);
    }
  }
}
SECTION(angles) {
  reseed(rng);
  for (int k = 0; k < 4; k++) {
    std::vector<Angles> v(static_cast<size_t>(N()));
    for (auto &a : v) a.distribute_isotropically();
    // uniform along every axis, in every azimuth, and both independent
    ThreeVector ax(h::uni(rng, -1, 1), h::uni(rng, -1, 1), h::uni(rng, -1, 1));
    ax = ax / ax.abs();
    size_t i = 0;
    h::evaluated(str("isotropic angles along %g %g %g", ax.x1(), ax.x2(), ax.x3()));
    continuous("isotropic", str("direction along an axis"), -1, 1, [&] { return v[i++].threevec() * ax; }, [](double x) { return (x + 1) / 2; });
    i = 0;
    continuous("isotropic", str("azimuth"), 0, 2 * M_PI, [&] { return v[i++].phi(); }, [](double x) { return x / 2 / M_PI; });
    i = 0;
    continuous("isotropic", str("polar angle"), -1, 1, [&] { return v[i++].costheta(); }, [](double x) { return (x + 1) / 2; });
  }
}
HARNESS_MAIN
