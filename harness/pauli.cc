// Pauli blocking: the phase-space density and what is blocked by it.
#include "h.h"
#include "params.h"
#include "smash/action.h"
#include "smash/configuration.h"
#include "smash/particles.h"
#include "smash/pauliblocking.h"
#include "smashenv.h"

using namespace smash;

namespace {
class TestAction : public Action {
 public:
  TestAction(const ParticleList &in, const ParticleList &out, double t, ProcessType ty) : Action(in, out, t, ty) {}
  double get_total_weight() const override { return 1.; }
  double get_partial_weight() const override { return 1.; }
  void generate_final_state() override {}
  void format_debug_output(std::ostream &o) const override { o << "test"; }
};
struct Setup {
  double sigma, rc, rr, rp;
  int test, ens;
  bool defaults;
  explicit Setup(h::Rng &rng) {
    sigma = h::uni(rng, .4, 2), rc = h::uni(rng, .8, 5), rr = rc * h::uni(rng, .15, .97), rp = h::uni(rng, .04, .5);
    test = h::range(rng, 1, 40), ens = h::chance(rng, .5) ? 1 : h::range(rng, 2, 4);
    defaults = h::chance(rng, .2);
    if (defaults) sigma = 1, rc = 2.2, rr = 1.86, rp = .08;
  }
  PauliBlocker make() const {
    char b[400];
    if (defaults) b[0] = 0;
    else snprintf(b, sizeof b, "Collision_Term: {Pauli_Blocking: {Spatial_Averaging_Radius: %.17g, Momentum_Averaging_Radius: %.17g, Gaussian_Cutoff: %.17g}}", rr, rp, rc);
    return PauliBlocker(Configuration(b), h::params(test, .1, 0., 300., sigma, 4., ens));
  }
  /// share of the truncated Gaussian of a particle at distance d in the sphere, in units of states
  double w(double d) const {
    if (d < 0) d = -d;
    double in = 0, all = 0, from = 0;
    for (double to : {std::min(rc, std::fabs(rr - d)), std::min(rc, rr + d), rc}) {
      const int n = 250;
      for (int i = 0; i < n; i++) {
        const double s = from + (to - from) * (i + .5) / n, g = s * s * std::exp(-s * s / 2 / sigma / sigma) * (to - from);
        double f = 0;
        if (s + d <= rr) f = 1;
        else if (std::fabs(s - d) < rr) f = std::min(1., (rr * rr - (d - s) * (d - s)) / (4 * d * s));
        in += g * f, all += g;
      }
      from = to;
    }
    const double hc = 0.197327053;  // GeV fm
    const double cells = 2 * (4. / 3 * M_PI * rr * rr * rr) * (4. / 3 * M_PI * rp * rp * rp) / std::pow(2 * M_PI * hc, 3);
    return in / all / cells;
  }
  /// the same with the two weights next to the distance swapped (known finding)
  double swapped(double d) const {
    const double x = d / step(), i = std::floor(x), t = x - i;
    return i + 1 < 30 ? t * w(i * step()) + (1 - t) * w((i + 1) * step()) : 0;
  }
  double step() const { return (rr + rc) / 30; }
  double tolerance(double d) const {
    const double h = step(), R = rr + rc;
    double t = .2 * std::fabs(w(std::max(0., d - h)) - w(d + h)) + 2e-3 * w(0);
    if (d > R - 1.01 * h) t += w(R - 1.01 * h);
    return t;
  }
};
const std::vector<ParticleTypePtr> &types() {
  static std::vector<ParticleTypePtr> v;
  if (v.empty())
    for (const char *c : {"2212", "2112", "-2212", "211", "3122", "2224", "-2112", "1000010020"})
      if (auto t = ParticleType::try_find(PdgCode(c))) v.push_back(t);
  return v;
}
ThreeVector dir(h::Rng &rng) {
  const double c = h::uni(rng, -1, 1), f = h::uni(rng, 0, 2 * M_PI), s = std::sqrt(1 - c * c);
  return {s * std::cos(f), s * std::sin(f), c};
}
struct World {
  std::vector<Particles> e;
  World(h::Rng &rng, const Setup &s, const ThreeVector &r, const ThreeVector &p, const std::vector<ParticleTypePtr> &of, int n) : e(size_t(s.ens)) {
    for (auto &x : e)
      for (int i = 0; i < n; i++) {
        ParticleData q(*of[size_t(h::below(rng, int(of.size())))]);
        const double d = (s.rr + s.rc) * std::cbrt(h::uni(rng, 0, 1.6)), m = s.rp * std::cbrt(h::uni(rng, 0, 2));
        q.set_4position(FourVector(h::uni(rng, 0, 5), r + dir(rng) * d));
        q.set_4momentum(q.type().mass() * h::uni(rng, .9, 1.1), p + dir(rng) * m);
        x.insert(q);
      }
  }
};
/// the sum over particles, on its own; too: sum of tolerances; edge: some particle on the edge of the sphere in momentum
double density(const Setup &s, const World &w, const ThreeVector &r, const ThreeVector &p, PdgCode c, const std::set<int> &skip, double *tol, bool *edge, int *n, double *swapped) {
  double f = 0;
  *swapped = 0;
  *tol = 0, *edge = false, *n = 0;
  for (const auto &x : w.e)
    for (const auto &q : x) {
      if (q.pdgcode() != c || skip.count(q.id())) continue;
      const double dp = (q.momentum().threevec() - p).abs(), d = (q.position().threevec() - r).abs();
      if (std::fabs(dp - s.rp) < 1e-9) *edge = true;
      if (dp > s.rp || d > s.rr + s.rc + s.step()) continue;
      *swapped += s.swapped(d) / s.test / s.ens, f += s.w(d), *tol += s.tolerance(d), ++*n;
    }
  *tol /= s.test * s.ens;
  return f / s.test / s.ens;
}
}  // namespace

SECTION(one) {  // one particle at any distance
  h::load_full();
  const int N = h::tier(400);
  for (int i = 0; i < N; i++) {
    Setup s(rng);
    auto pb = s.make();
    const auto &t = *types()[0];
    const ThreeVector r(h::uni(rng, -9, 9), h::uni(rng, -9, 9), h::uni(rng, -9, 9)), p(h::uni(rng, -1, 1), h::uni(rng, -1, 1), h::uni(rng, -1, 1));
    for (int j = 0; j < 20; j++) {
      double d = j == 0 ? 0 : (s.rr + s.rc) * h::uni(rng, 0, 1.1);
      if (j == 1) d = s.step() * h::range(rng, 1, 28) * (1 + 1e-9);
      World w(rng, s, r, p, types(), 0);
      ParticleData q(t);
      q.set_4position(FourVector(1, r + dir(rng) * d));
      q.set_4momentum(t.mass(), p + dir(rng) * s.rp * h::uni(rng, 0, .99));
      w.e[size_t(h::below(rng, s.ens))].insert(q);
      h::at("sigma %g cutoff %g r %g p %g N %d ensembles %d distance %g", s.sigma, s.rc, s.rr, s.rp, s.test, s.ens, d);
      const double f = pb.phasespace_dens(r, p, w.e, t.pdgcode(), {}), g = s.w(d) / s.test / s.ens, tol = s.tolerance(d) / s.test / s.ens;
      if (!(std::fabs(f - g) <= tol))
        h::fail(std::fabs(f * s.test * s.ens - s.swapped(d)) <= 2e-3 * s.w(0) ? "swapped" : "weight", "density is %.6g, should be %.6g +- %.2g", f, g, tol);
      if (d > s.rr + s.rc && f != 0) h::fail("far", "a particle out of reach counts %g", f);
      h::evaluated(h::current);
    }
  }
}

SECTION(sum) {  // the sum over many particles and ensembles
  h::load_full();
  const int N = h::tier(300);
  for (int i = 0; i < N; i++) {
    Setup s(rng);
    auto pb = s.make();
    const ThreeVector r(h::uni(rng, -9, 9), h::uni(rng, -9, 9), h::uni(rng, -9, 9)), p(h::uni(rng, -1, 1), h::uni(rng, -1, 1), h::uni(rng, -1, 1));
    World w(rng, s, r, p, types(), h::range(rng, 0, 60));
    for (auto t : types()) {
      std::set<int> skip;
      ParticleList out;
      if (s.ens == 1) {  // identifiers are unique in one ensemble only
        for (const auto &q : w.e[0])
          if (h::chance(rng, .1)) out.push_back(q), skip.insert(q.id());
      }
      double tol, swapped;
      bool edge;
      int n;
      const double g = density(s, w, r, p, t->pdgcode(), skip, &tol, &edge, &n, &swapped), f = pb.phasespace_dens(r, p, w.e, t->pdgcode(), out);
      h::at("sigma %g cutoff %g r %g p %g N %d ensembles %d, %s, %d near, %zu left out", s.sigma, s.rc, s.rr, s.rp, s.test, s.ens, t->pdgcode().string().c_str(), n, out.size());
      if (edge) continue;
      if (!(std::fabs(f - g) <= tol + 1e-12))
        h::fail(std::fabs(f - swapped) <= 2e-3 * s.w(0) * n / s.test / s.ens + 1e-12 ? "swapped" : "sum", "density is %.6g, should be %.6g +- %.2g", f, g, tol);
      // not more than the particles asked for: a moved frame changes nothing
      const ThreeVector a(h::uni(rng, -1, 1), h::uni(rng, -1, 1), h::uni(rng, -1, 1));
      for (auto &x : w.e)
        for (auto &q : x) q.set_4position(q.position() + FourVector(0, a));
      const double f2 = pb.phasespace_dens(r + a, p, w.e, t->pdgcode(), out);
      if (!h::close(f, f2, 1e-9, 1e-9)) h::fail("translation", "density is %.12g, %.12g after a translation", f, f2);
      for (auto &x : w.e)
        for (auto &q : x) q.set_4position(q.position() - FourVector(0, a));
      if (n) h::evaluated(h::current);
    }
  }
}

SECTION(blocked) {  // what is blocked, and how often
  h::load_full();
  const int N = h::tier(60, 5);
  for (int i = 0; i < N; i++) {
    Setup s(rng);
    s.ens = 1;
    auto pb = s.make();
    const ThreeVector r(h::uni(rng, -9, 9), h::uni(rng, -9, 9), h::uni(rng, -9, 9)), p(h::uni(rng, -1, 1), h::uni(rng, -1, 1), h::uni(rng, -1, 1));
    // as many protons as make the density moderate
    const double target = h::uni(rng, .1, 1.2) * s.test;
    World w(rng, s, r, p, {types()[0], types()[0], types()[1], types()[3], types()[3]}, std::min(3000, std::max(1, int(target * 10 / s.w(0)))));
    ParticleList in, out;
    for (const auto &q : w.e[0])
      if (in.size() < 2 && h::chance(rng, .2)) in.push_back(q);
    if (in.empty()) in.push_back(w.e[0].copy_to_vector()[0]);
    const int n = h::range(rng, 1, 3);
    double pass = 1;
    bool baryon = false;
    for (int k = 0; k < n; k++) {
      const auto &t = *types()[size_t(h::below(rng, 4))];
      ParticleData q(t);
      q.set_4position(FourVector(1, r));
      q.set_4momentum(t.mass(), p + dir(rng) * s.rp * h::uni(rng, 0, .2));
      out.push_back(q);
      if (!t.is_baryon()) continue;
      baryon = true;
      pass *= 1 - std::min(1., pb.phasespace_dens(r, q.momentum().threevec(), w.e, t.pdgcode(), in));
    }
    const double blocked = 1 - pass;
    for (auto ty : {ProcessType::TwoToTwo, ProcessType::Decay, ProcessType::Wall}) {
      TestAction a(in, out, .1, ty);
      const int M = h::tier(1500, 3);
      int c = 0;
      for (int k = 0; k < M; k++) c += a.is_pauli_blocked(w.e, pb);
      h::at("%s of %s, blocked with %.4f", ty == ProcessType::Wall ? "wall" : ty == ProcessType::Decay ? "decay" : "collision", out[0].type().name().c_str(), blocked);
      if (ty == ProcessType::Wall || !baryon) {
        if (c) h::fail("free", "blocked %d times of %d", c, M);
      } else {
        const double var = blocked * (1 - blocked) * M;
        if (std::fabs(c - blocked * M) > 6 * std::sqrt(var) + 1e-6 * M) h::fail("rate", "blocked %d times of %d, should be %.1f +- %.1f", c, M, blocked * M, std::sqrt(var));
      }
      h::evaluated(h::current);
    }
    h::count("with a moderate probability", blocked > .02 && blocked < .98);
  }
}

HARNESS_MAIN
