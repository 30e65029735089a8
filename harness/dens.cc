// Densities and currents, at points and on lattices, and the energy-momentum tensor.
#include <memory>

#include "h.h"
#include "params.h"
#include "smash/density.h"
#include "smash/energymomentumtensor.h"
#include "smash/lattice.h"
#include "smash/particles.h"
#include "smashenv.h"

using namespace smash;
using D3 = std::array<double, 3>;
using I3 = std::array<int, 3>;

namespace {
const DensityType kinds[] = {DensityType::Hadron, DensityType::Baryon, DensityType::BaryonicIsospin, DensityType::Pion, DensityType::Isospin3_tot, DensityType::Charge, DensityType::Strangeness, DensityType::None};
double factor(const ParticleType &t, DensityType k) {
  const PdgCode c = t.pdgcode();
  const bool had = c.is_hadron(), bar = c.baryon_number() != 0;
  switch (k) {
    case DensityType::Hadron: return had ? 1 : 0;
    case DensityType::Baryon: return c.baryon_number();
    case DensityType::BaryonicIsospin: return bar && t.isospin() > 0 ? double(t.isospin3()) / t.isospin() : 0;
    case DensityType::Pion: return std::abs(c.get_decimal()) == 211 || c.get_decimal() == 111 ? 1 : 0;
    case DensityType::Isospin3_tot: return had ? t.isospin3() : 0;
    case DensityType::Charge: return c.charge();
    case DensityType::Strangeness: return c.strangeness();
    default: return 0;
  }
}
/// kernel of a particle at distance d, on its own
double kernel(const ThreeVector &d, const FourVector &u, double sigma, double cut) {
  const double ur = d * u.threevec(), r2 = d.sqr() + ur * ur;
  if (r2 > cut * cut) return 0;
  return std::exp(-r2 / 2 / sigma / sigma) * u.x0();
}
double norm(double sigma, double n_sigma) {  // the integral of a Gaussian up to n sigma
  double s = 0;
  const int n = 4000;
  for (int i = 0; i < n; i++) {
    const double x = n_sigma * (i + .5) / n;
    s += x * x * std::exp(-x * x / 2) * n_sigma / n;
  }
  return 4 * M_PI * s * sigma * sigma * sigma;
}
const std::vector<ParticleTypePtr> &types() {
  static std::vector<ParticleTypePtr> v;
  if (v.empty())
    for (const char *c : {"2212", "2112", "-2212", "211", "-211", "111", "321", "-321", "3122", "-3122", "3112", "2224", "1114", "-2224", "3334", "1000010020", "310", "22", "11", "221", "-1000010020"})
      if (auto t = ParticleType::try_find(PdgCode(c))) v.push_back(t);
  return v;
}
ParticleData particle(h::Rng &rng, double box, double fast) {
  ParticleData p(*types()[size_t(h::below(rng, int(types().size())))]);
  const double f = h::chance(rng, .2) ? 0 : fast * (p.type().mass() + .1);
  p.set_4momentum(p.type().mass(), h::uni(rng, -f, f), h::uni(rng, -f, f), h::uni(rng, -f, f) + (p.type().mass() > 0 ? 0 : 1e-3));
  p.set_4position(FourVector(0, h::uni(rng, -box, box), h::uni(rng, -box, box), h::uni(rng, -box, box)));
  HistoryData hist;
  hist.collisions_per_particle = h::chance(rng, .5) ? 0 : h::range(rng, 1, 5);
  p.set_history(std::move(hist));
  return p;
}
struct Setup {
  double sigma, cut, range, weight;
  int test, ens;
  bool part;
  SmearingMode mode;
  DerivativesMode der = DerivativesMode::CovariantGaussian;
  RestFrameDensityDerivativesMode rho = RestFrameDensityDerivativesMode::Off;
  explicit Setup(h::Rng &rng) {
    sigma = h::uni(rng, .4, 2), cut = h::uni(rng, 1.5, 5), range = h::chance(rng, .5) ? h::range(rng, 1, 3) : h::uni(rng, 1, 3), weight = h::uni(rng, 1. / 7, 1);
    test = h::chance(rng, .5) ? 1 : h::range(rng, 1, 30), ens = h::chance(rng, .5) ? 1 : h::range(rng, 1, 4);
    part = h::chance(rng, .25);
    const SmearingMode m[] = {SmearingMode::CovariantGaussian, SmearingMode::Discrete, SmearingMode::Triangular};
    mode = m[h::below(rng, 3)];
  }
  DensityParameters make() const {
    auto p = h::params(test, .1, 0., 300., sigma, cut, ens, mode);
    p.derivatives_mode = der, p.rho_derivatives_mode = rho;
    p.discrete_weight = weight, p.triangular_range = range, p.only_participants = part;
    return DensityParameters(p);
  }
};
bool close4(const FourVector &a, const FourVector &b, double rel, double abs) {
  for (int i = 0; i < 4; i++)
    if (!(std::fabs(a[i] - b[i]) <= abs + rel * (std::fabs(a[i]) + std::fabs(b[i])))) return false;
  return true;
}
bool close3(const ThreeVector &a, const ThreeVector &b, double rel, double abs) { return close4(FourVector(0, a), FourVector(0, b), rel, abs); }
std::string s4(const FourVector &a) {
  char b[200];
  snprintf(b, sizeof b, "(%.9g %.9g %.9g %.9g)", a[0], a[1], a[2], a[3]);
  return b;
}
/// positive and negative current of a list, with a weight for every particle
template <class W>
std::pair<FourVector, FourVector> current(const ParticleList &l, DensityType k, bool part, W w) {
  std::pair<FourVector, FourVector> j;
  for (const auto &p : l) {
    if (part && p.get_history().collisions_per_particle == 0) continue;
    const double f = factor(p.type(), k);
    if (f == 0) continue;
    const double x = w(p);
    if (x == 0) continue;
    (f > 0 ? j.first : j.second) += p.momentum() / p.momentum().x0() * f * x;
  }
  return j;
}
}  // namespace

SECTION(factors) {
  h::load_full(false);
  for (const auto &t : ParticleType::list_all())
    for (DensityType k : kinds) {
      h::at("%s, kind %d", t.pdgcode().string().c_str(), int(k));
      h::evaluated(h::current);
      if (density_factor(t, k) != factor(t, k)) h::fail("factor", "%s counts %g in density %d, expected %g", t.name().c_str(), density_factor(t, k), int(k), factor(t, k));
    }
}
SECTION(kernel) {
  for (int k = 0; k < h::tier(3000); k++) {
    Setup s(rng);
    const auto par = s.make();
    h::at("sigma %.17g cut %.17g test %d ens %d", s.sigma, s.cut, s.test, s.ens);
    h::evaluated(h::current);
    const double n = norm(s.sigma, s.cut);
    if (!h::close(par.norm_factor_sf() * n * s.test * s.ens, 1, 1e-5)) h::fail("norm", "kernel with norm %.9g", par.norm_factor_sf() * n * s.test * s.ens);
    if (!h::close(smearing_factor_norm(2 * s.sigma * s.sigma), std::pow(2 * M_PI * s.sigma * s.sigma, 1.5), 1e-9)) h::fail("norm", "norm of a Gaussian");
    if (!h::close(smearing_factor_norm(2 * s.sigma * s.sigma) * smearing_factor_rcut_correction(s.cut), n, 1e-5)) h::fail("norm", "correction for the cut");
    if (!h::close(par.r_cut(), s.cut * s.sigma, 1e-12)) h::fail("cut", "radius of the cut");
    for (int i = 0; i < 10; i++) {
      const double m = h::uni(rng, .1, 2), f = h::chance(rng, .2) ? 0 : 3;
      const FourVector p(std::sqrt(m * m + 0), 0, 0, 0);
      ThreeVector mom(h::uni(rng, -f, f), h::uni(rng, -f, f), h::uni(rng, -f, f));
      const FourVector q(std::sqrt(m * m + mom.sqr()), mom);
      const double R = s.cut * s.sigma;
      const ThreeVector r(h::uni(rng, -R, R), h::uni(rng, -R, R), h::uni(rng, -R, R));
      const auto g = unnormalized_smearing_factor(r, q, 1 / m, par, true);
      const auto g0 = unnormalized_smearing_factor(r, q, 1 / m, par, false);
      const double ur = r * q.threevec() / m, rest = std::sqrt(r.sqr() + ur * ur);
      if (std::fabs(rest - R) < 1e-6) continue;
      const double want = kernel(r, q / m, s.sigma, R);
      if (!h::close(g.first, want, 1e-9)) h::fail("kernel", "kernel %.12g, expected %.12g", g.first, want);
      if (g0.first != g.first || g0.second.sqr() != 0) h::fail("kernel", "kernel depends on whether the gradient is wanted");
      if (rest > R) {
        if (g.second.sqr() != 0) h::fail("gradient", "gradient beyond the cut");
        continue;
      }
      // the gradient with respect to the point, which is subtracted in r
      for (int d = 0; d < 3; d++) {
        const double e = 1e-5 * s.sigma;
        ThreeVector a = r, b = r;
        a[d] -= e, b[d] += e;
        const double num = (kernel(a, q / m, s.sigma, 2 * R) - kernel(b, q / m, s.sigma, 2 * R)) / 2 / e;
        if (!h::close(g.second[d], num, 1e-5, 1e-6 * q.x0() / m / s.sigma)) h::fail("gradient", "gradient %.9g, expected %.9g", g.second[d], num);
      }
    }
  }
}
SECTION(point) {
  h::load_full(false);
  for (int k = 0; k < h::tier(1500); k++) {
    Setup s(rng);
    const auto par = s.make();
    const DensityType kind = kinds[h::below(rng, 8)];
    ParticleList l;
    for (int n = h::range(rng, 0, 12); n-- > 0;) l.push_back(particle(rng, 2.5, 2));
    const ThreeVector r(h::uni(rng, -2, 2), h::uni(rng, -2, 2), h::uni(rng, -2, 2));
    h::at("kind %d sigma %.17g cut %.17g test %d ens %d part %d, %zu particles, at %.17g %.17g %.17g", int(kind), s.sigma, s.cut, s.test, s.ens, s.part, l.size(), r.x1(), r.x2(), r.x3());
    h::evaluated(h::current);
    const double N = 1 / (norm(s.sigma, s.cut) * s.test * s.ens), R = s.cut * s.sigma;
    auto massive = [](const ParticleData &p) { return p.momentum().abs() >= 1e-6; };
    auto at = [&](const ThreeVector &x, double t) {
      return current(l, kind, s.part, [&](const ParticleData &p) {
        if (!massive(p)) return 0.;
        return N * kernel(p.position().threevec() + p.velocity() * t - x, p.momentum() / p.momentum().abs(), s.sigma, R);
      });
    };
    const auto want = at(r, 0);
    bool edge = false;
    for (const auto &p : l)
      if (massive(p)) {
        const ThreeVector d = p.position().threevec() - r;
        const double ur = d * p.momentum().threevec() / p.momentum().abs();
        if (std::fabs(std::sqrt(d.sqr() + ur * ur) - R) < 3e-4) edge = true;
      }
    if (edge) continue;
    Particles pl;
    for (const auto &p : l) pl.insert(p);
    for (int twice = 0; twice < 2; twice++) {
      const auto got = twice ? current_eckart(r, pl, par, kind, true, true) : current_eckart(r, l, par, kind, true, true);
      const FourVector j = want.first + want.second;
      const double size = std::fabs(want.first.x0()) + std::fabs(want.second.x0()) + 1e-12;
      const double rho = want.first.abs() - want.second.abs();
      if (!close4(std::get<1>(got), j, 1e-6, 1e-6 * size)) h::fail("current", "current %s, expected %s", s4(std::get<1>(got)).c_str(), s4(j).c_str());
      if (!h::close(std::get<0>(got), rho, 1e-5, 1e-5 * size)) h::fail("density", "density %.9g, expected %.9g", std::get<0>(got), rho);
      // derivatives: of the current in time and space, from the definition of a derivative
      const double e = 1e-5 * s.sigma;
      FourVector d[4];
      {
        const auto a = at(r, -e), b = at(r, e);
        d[0] = ((b.first + b.second) - (a.first + a.second)) / (2 * e);
        for (int i = 0; i < 3; i++) {
          ThreeVector x = r, y = r;
          x[i] -= e, y[i] += e;
          const auto f = at(x, 0), g = at(y, 0);
          d[i + 1] = ((g.first + g.second) - (f.first + f.second)) / (2 * e);
        }
      }
      double most = 0;
      for (const auto &p : l) most = std::max(most, massive(p) ? std::pow(p.momentum().x0() / p.momentum().abs(), 2) : 1);
      const double tol = 1e-4 * N * most * 10 / s.sigma;
      const FourVector *dd[] = {&std::get<4>(got), &std::get<5>(got), &std::get<6>(got), &std::get<7>(got)};
      for (int i = 0; i < 4; i++)
        if (!close4(*dd[i], d[i], 1e-4, tol)) h::fail("derivative", "derivative %d of the current is %s, expected %s", i, s4(*dd[i]).c_str(), s4(d[i]).c_str());
      const ThreeVector g0(d[1].x0(), d[2].x0(), d[3].x0()), curl(d[2].x3() - d[3].x2(), d[3].x1() - d[1].x3(), d[1].x2() - d[2].x1());
      if (!close3(std::get<2>(got), g0, 1e-4, tol)) h::fail("gradient", "gradient of the density");
      if (!close3(std::get<3>(got), curl, 1e-4, tol)) h::fail("curl", "curl of the current");
      const auto plain = current_eckart(r, l, par, kind, false, true);
      if (!close4(std::get<1>(plain), j, 1e-6, 1e-6 * size) || std::get<2>(plain).sqr() != 0) h::fail("current", "the current depends on whether gradients are wanted");
      // without smearing: the sum over all particles, wherever they are
      const auto all = current(l, kind, s.part, [&](const ParticleData &p) { return massive(p) ? 1. : 0.; });
      const auto sum = current_eckart(r, l, par, kind, false, false);
      if (!close4(std::get<1>(sum), all.first + all.second, 1e-9, 1e-9)) h::fail("sum", "sum of currents %s, expected %s", s4(std::get<1>(sum)).c_str(), s4(all.first + all.second).c_str());
    }
  }
}
SECTION(lattices) {
  h::load_full(false);
  int modes[3] = {0, 0, 0};
  for (int k = 0; k < h::tier(500); k++) {
    Setup s(rng);
    if (s.mode == SmearingMode::CovariantGaussian) s.sigma = h::uni(rng, .4, 1);
    const auto par = s.make();
    const DensityType kind = kinds[h::below(rng, 7)];
    I3 n;
    D3 L, o;
    for (size_t i = 0; i < 3; i++) n[i] = h::range(rng, 3, 9), L[i] = h::uni(rng, 3, 9), o[i] = -L[i] / 2 + h::uni(rng, -.5, .5);
    const bool per = h::chance(rng, .6);
    std::vector<Particles> ens(static_cast<size_t>(s.ens));
    ParticleList all;
    for (auto &e : ens)
      for (int i = h::range(rng, 0, 6); i-- > 0;) {
        auto p = particle(rng, h::chance(rng, .3) && !per ? 6 : 2, 2);
        all.push_back(p);
        e.insert(p);
      }
    h::at("mode %d kind %d sigma %.17g cut %.17g range %.17g weight %.17g test %d ens %d part %d, %zu particles, cells %d %d %d, size %.17g %.17g %.17g, origin %.17g %.17g %.17g, periodic %d", int(s.mode), int(kind), s.sigma, s.cut, s.range, s.weight,
          s.test, s.ens, s.part, all.size(), n[0], n[1], n[2], L[0], L[1], L[2], o[0], o[1], o[2], per);
    h::evaluated(h::current);
    modes[int(s.mode)]++;
    RectangularLattice<DensityOnLattice> lat(L, n, o, per, LatticeUpdate::EveryTimestep);
    RectangularLattice<EnergyMomentumTensor> tmn(L, n, o, per, LatticeUpdate::EveryTimestep);
    // something from before must vanish; another kind of update changes nothing
    lat[0].add_to_jmu_pos(FourVector(7, 0, 0, 0));
    update_lattice_accumulating_ensembles(&lat, LatticeUpdate::AtOutput, kind, par, ens, true);
    if (lat[0].jmu_net().x0() != 7) h::fail("update", "a lattice was updated at the wrong time");
    update_lattice_accumulating_ensembles(&lat, LatticeUpdate::EveryTimestep, kind, par, ens, true);
    update_lattice_accumulating_ensembles(&tmn, LatticeUpdate::EveryTimestep, kind, par, ens, false);
    RectangularLattice<DensityOnLattice> *none = nullptr;
    update_lattice_accumulating_ensembles(none, LatticeUpdate::EveryTimestep, kind, par, ens, true);
    const D3 c = lat.cell_sizes();
    const double V = c[0] * c[1] * c[2], N = 1 / norm(s.sigma, s.cut) / s.test / s.ens, R = s.cut * s.sigma;
    auto weight = [&](const ParticleData &p, const ThreeVector &d, const I3 &off) {  // d: node to particle; off: cells between the two
      switch (s.mode) {
        case SmearingMode::CovariantGaussian:
          return p.momentum().abs() < 1e-6 ? 0. : N * kernel(d, p.momentum() / p.momentum().abs(), s.sigma, R);
        case SmearingMode::Discrete: {
          const int far = std::abs(off[0]) + std::abs(off[1]) + std::abs(off[2]);
          return far > 1 ? 0. : (far ? (1 - s.weight) / 6 : s.weight) / (V * s.test * s.ens);
        }
        default: {
          double w = 1. / s.test / s.ens;
          for (int i = 0; i < 3; i++) {
            const double Q = s.range * c[size_t(i)];
            w *= std::max(0., Q - std::fabs(d[i])) / Q / Q;
          }
          return w;
        }
      }
    };
    int worst = 0;
    for (int z = 0; z < n[2] && worst < 3; z++)
      for (int y = 0; y < n[1]; y++)
        for (int x = 0; x < n[0]; x++) {
          std::pair<FourVector, FourVector> want;
          EnergyMomentumTensor T;
          double w00 = 0;
          for (const auto &p : all) {
            if (s.part && p.get_history().collisions_per_particle == 0) continue;
            const double f = factor(p.type(), kind);
            if (f == 0) continue;
            double w = 0;
            const int im = per ? 4 : 0;
            I3 cell;
            bool inside = true;
            for (size_t i = 0; i < 3; i++) {
              cell[i] = int(std::floor((p.position()[int(i) + 1] - o[i]) / c[i]));
              inside &= cell[i] >= 0 && cell[i] < n[i];
            }
            if (!inside && s.mode == SmearingMode::Discrete && !per) continue;
            for (int a = -im; a <= im; a++)
              for (int b = -im; b <= im; b++)
                for (int e = -im; e <= im; e++) {
                  const I3 node = {x + a * n[0], y + b * n[1], z + e * n[2]};
                  ThreeVector d;
                  I3 off;
                  bool far = false;
                  for (size_t i = 0; i < 3; i++) {
                    d[int(i)] = p.position()[int(i) + 1] - (o[i] + (node[i] + .5) * c[i]);
                    off[i] = node[i] - cell[i];
                    far |= std::fabs(d[int(i)]) > std::max(R, 3 * c[i]) + c[i];
                  }
                  if (!far) w += weight(p, d, off);
                }
            (f > 0 ? want.first : want.second) += p.momentum() / p.momentum().x0() * f * w;
            const FourVector q = p.momentum() * (f * w);
            w00 += std::fabs(q.x0());
            if (w != 0) T.add_particle(q);
          }
          const int i = x + n[0] * (y + n[1] * z);
          const FourVector j = want.first + want.second;
          const double size = std::fabs(want.first.x0()) + std::fabs(want.second.x0()) + 1e-12;
          const bool sharp = s.mode == SmearingMode::CovariantGaussian;
          const double slack = 1e-6 * size + (sharp ? 1e-12 : 1e-12);
          if (!close4(lat[i].jmu_net(), j, 1e-5, slack)) {
            if (worst++ == 0) h::fail("current", "current of cell %d %d %d: %s, expected %s", x, y, z, s4(lat[i].jmu_net()).c_str(), s4(j).c_str());
          } else if (!h::close(lat[i].rho(), want.first.abs() - want.second.abs(), 1e-5, 1e-6 * size + 1e-7)) {
            if (worst++ == 0) h::fail("density", "density of cell %d %d %d: %.9g, expected %.9g", x, y, z, lat[i].rho(), want.first.abs() - want.second.abs());
          }
          for (size_t q = 0; q < 10; q++)
            if (!h::close(tmn[i][q], T[q], 1e-5, 1e-6 * w00 + 1e-12) && worst++ == 0) h::fail("tmn", "component %zu of cell %d %d %d: %.9g, expected %.9g", q, x, y, z, tmn[i][q], T[q]);
        }
    // conservation on a periodic lattice
    FourVector total, want;
    for (auto &node : lat) total += node.jmu_net() * V;
    double size = 0;
    bool fine = per && (s.mode == SmearingMode::Discrete || (s.mode == SmearingMode::Triangular && s.range == std::floor(s.range)));
    for (const auto &p : all) {
      if (s.part && p.get_history().collisions_per_particle == 0) continue;
      const double f = factor(p.type(), kind);
      want += p.momentum() / p.momentum().x0() * f / s.test / s.ens;
      size += std::fabs(f) / s.test / s.ens;
    }
    if (fine && !close4(total, want, 1e-6, 1e-6 * size)) h::fail("conserved", "the lattice holds %s, expected %s", s4(total).c_str(), s4(want).c_str());
  }
  // a fine lattice holds the whole charge, also with Gaussians that move fast
  for (int k = 0; k < h::tier(12); k++) {
    Setup s(rng);
    s.mode = SmearingMode::CovariantGaussian, s.part = false, s.sigma = 1, s.cut = h::uni(rng, 2.5, 4), s.ens = 1;
    const auto par = s.make();
    std::vector<Particles> ens(1);
    auto p = particle(rng, 1, 1);
    while (p.type().baryon_number() == 0) p = particle(rng, 1, 1);
    ens[0].insert(p);
    RectangularLattice<DensityOnLattice> lat({12, 12, 12}, {60, 60, 60}, {-6, -6, -6}, true, LatticeUpdate::EveryTimestep);
    update_lattice_accumulating_ensembles(&lat, LatticeUpdate::EveryTimestep, DensityType::Baryon, par, ens, false);
    double q = 0;
    for (auto &node : lat) q += node.jmu_net().x0() * .008;
    h::at("fine lattice, %s with %.9g, cut %.9g", p.type().name().c_str(), p.momentum().x0(), s.cut);
    h::evaluated(h::current);
    if (!h::close(q * s.test, p.type().baryon_number(), .012)) h::fail("conserved", "the lattice holds %.6g baryons, expected %d", q * s.test, p.type().baryon_number());
  }
  h::count("gaussian", modes[0]), h::count("discrete", modes[1]), h::count("triangular", modes[2]);
}
SECTION(derivatives) {
  h::load_full(false);
  for (int k = 0; k < h::tier(150); k++) {
    Setup s(rng);
    s.der = h::chance(rng, .5) ? DerivativesMode::CovariantGaussian : DerivativesMode::FiniteDifference;
    if (s.der == DerivativesMode::CovariantGaussian) s.mode = SmearingMode::CovariantGaussian;
    s.rho = h::chance(rng, .6) ? RestFrameDensityDerivativesMode::On : RestFrameDensityDerivativesMode::Off;
    const auto par = s.make();
    const DensityType kind = DensityType::Baryon;
    I3 n;
    D3 L, o;
    for (size_t i = 0; i < 3; i++) n[i] = h::range(rng, 3, 8), L[i] = h::uni(rng, 4, 9), o[i] = -L[i] / 2;
    const bool per = h::chance(rng, .5);
    const double dt = h::uni(rng, .05, .3);
    h::at("derivatives %d smearing %d sigma %.17g cut %.17g cells %d %d %d size %.17g %.17g %.17g periodic %d dt %.17g", int(s.der), int(s.mode), s.sigma, s.cut, n[0], n[1], n[2], L[0], L[1], L[2], per, dt);
    h::evaluated(h::current);
    RectangularLattice<DensityOnLattice> lat(L, n, o, per, LatticeUpdate::EveryTimestep);
    RectangularLattice<FourVector> oldj(L, n, o, per, LatticeUpdate::EveryTimestep), newj(L, n, o, per, LatticeUpdate::EveryTimestep);
    RectangularLattice<std::array<FourVector, 4>> grad(L, n, o, per, LatticeUpdate::EveryTimestep);
    std::vector<FourVector> before;
    for (int step = 0; step < 2; step++) {
      std::vector<Particles> ens(static_cast<size_t>(s.ens));
      ParticleList all;
      for (auto &e : ens)
        for (int i = 8; i-- > 0;) {
          const auto p = particle(rng, 2, 1);
          all.push_back(p), e.insert(p);
        }
      before.clear();
      for (auto &node : lat) before.push_back(node.jmu_net());
      update_lattice(&lat, &oldj, &newj, &grad, LatticeUpdate::EveryTimestep, kind, par, ens, dt, true);
      const D3 c = lat.cell_sizes();
      const double N = 1 / norm(s.sigma, s.cut) / s.test / s.ens, R = s.cut * s.sigma;
      int worst = 0;
      for (int z = 0; z < n[2] && worst < 3; z++)
        for (int y = 0; y < n[1]; y++)
          for (int x = 0; x < n[0]; x++) {
            const int i = x + n[0] * (y + n[1] * z);
            auto &node = lat[i];
            const auto d = node.djmu_dxnu();
            FourVector want[4];
            double size = 1e-9;
            bool edge = false;
            if (s.der == DerivativesMode::FiniteDifference) {
              want[0] = (node.jmu_net() - before[size_t(i)]) / dt;
              size += (std::fabs(node.jmu_net().x0()) + std::fabs(before[size_t(i)].x0())) / dt;
              const int xi[] = {x, y, z};
              for (int q = 0; q < 3; q++) {
                auto at = [&](int v) {
                  int w[] = {x, y, z};
                  w[q] = (v + n[size_t(q)]) % n[size_t(q)];
                  return lat[w[0] + n[0] * (w[1] + n[1] * w[2])].jmu_net();
                };
                if (!per && (xi[q] == 0 || xi[q] == n[size_t(q)] - 1)) {
                  edge = true;
                  continue;
                }
                want[q + 1] = (at(xi[q] + 1) - at(xi[q] - 1)) / (2 * c[size_t(q)]);
                size += (std::fabs(at(xi[q] + 1).x0()) + std::fabs(at(xi[q] - 1).x0())) / c[size_t(q)];
              }
            } else {
              const int im = per ? 3 : 0;
              for (const auto &p : all) {
                const double f = factor(p.type(), kind), m = p.momentum().abs();
                if (f == 0 || m < 1e-6 || (s.part && p.get_history().collisions_per_particle == 0)) continue;
                for (int a = -im; a <= im; a++)
                  for (int b = -im; b <= im; b++)
                    for (int e = -im; e <= im; e++) {
                      const ThreeVector r(p.position().x1() - (o[0] + (x + a * n[0] + .5) * c[0]), p.position().x2() - (o[1] + (y + b * n[1] + .5) * c[1]), p.position().x3() - (o[2] + (z + e * n[2] + .5) * c[2]));
                      const FourVector u = p.momentum() / m;
                      const double w = N * f * kernel(r, u, s.sigma, R), ur = u.threevec() * r;
                      if (w == 0) continue;
                      const ThreeVector g = (r + u.threevec() * ur) * (w / s.sigma / s.sigma);
                      const FourVector v(1, p.velocity());
                      for (int q = 0; q < 3; q++) want[q + 1] += v * g[q], want[0] -= v * g[q] * p.velocity()[q];
                      size += std::fabs(w) * (1 + u.x0() * u.x0()) / s.sigma * 3;
                    }
              }
            }
            for (int q = 0; q < 4; q++)
              if (!(edge && q > 0) && !close4(d[size_t(q)], want[q], 1e-5, 1e-6 * size) && worst++ == 0)
                h::fail("derivative", "derivative %d in cell %d %d %d is %s, expected %s", q, x, y, z, s4(d[size_t(q)]).c_str(), s4(want[q]).c_str());
            const ThreeVector curl(d[2].x3() - d[3].x2(), d[3].x1() - d[1].x3(), d[1].x2() - d[2].x1());
            if (!close3(node.curl_vecj(), curl, 1e-9, 1e-12) || !close3(node.grad_j0(), ThreeVector(d[1].x0(), d[2].x0(), d[3].x0()), 1e-9, 1e-12) || !close3(node.dvecj_dt(), d[0].threevec(), 1e-9, 1e-12)) h::fail("curl", "curl, gradient or time derivative of a cell");
            if (s.rho == RestFrameDensityDerivativesMode::On && std::fabs(node.rho()) > 1e-6) {
              const FourVector j = node.jmu_net();
              FourVector g;
              for (int q = 0; q < 4; q++) g[q] = (j.x0() * d[size_t(q)].x0() - j.threevec() * d[size_t(q)].threevec()) / node.rho();
              if (!close4(node.drho_dxnu(), g, 1e-6, 1e-9) && worst++ == 0) h::fail("rho", "derivative of the density %s, expected %s", s4(node.drho_dxnu()).c_str(), s4(g).c_str());
              if (!close3(node.grad_rho_cross_vecj(), g.threevec().cross_product(j.threevec()), 1e-6, 1e-9)) h::fail("rho", "gradient of the density times current");
            }
          }
    }
  }
}
SECTION(tensor) {
  for (int k = 0; k < h::tier(4000); k++) {
    EnergyMomentumTensor t;
    const int n = h::chance(rng, .2) ? 1 : h::range(rng, 2, 20);
    const double flow = h::chance(rng, .5) ? 0 : h::uni(rng, 0, 5);
    double want[4][4] = {};
    FourVector total;
    for (int i = 0; i < n; i++) {
      const double m = h::uni(rng, .1, 2);
      const FourVector p0(std::sqrt(m * m), 0, 0, 0);
      ThreeVector q(h::uni(rng, -1, 1), h::uni(rng, -1, 1), h::uni(rng, -1, 1) + flow);
      const FourVector p(std::sqrt(m * m + q.sqr()), q);
      t.add_particle(p);
      total += p;
      for (int a = 0; a < 4; a++)
        for (int b = 0; b < 4; b++) want[a][b] += p[a] * p[b] / p[0];
    }
    h::at("%d particles, flow %.17g, %s", n, flow, s4(total).c_str());
    h::evaluated(h::current);
    const double size = want[0][0];
    auto comp = [](const EnergyMomentumTensor &x, int a, int b) { return x[size_t(EnergyMomentumTensor::tmn_index(std::int8_t(a), std::int8_t(b)))]; };
    for (int a = 0; a < 4; a++)
      for (int b = 0; b < 4; b++) {
        if (!h::close(comp(t, a, b), want[a][b], 1e-9, 1e-12 * size)) h::fail("component", "component %d %d is %.12g, expected %.12g", a, b, comp(t, a, b), want[a][b]);
        const double f = 1.5;
        if (!h::close(comp(t * f - t / 2. + f * t, a, b), want[a][b] * 2.5, 1e-9, 1e-12 * size)) h::fail("arithmetic", "arithmetic of tensors");
      }
    const FourVector lower = t.landau_frame_4velocity();  // with lower indices, as documented
    const FourVector u(lower.x0(), -lower.threevec());
    if (!h::close(u.sqr(), 1, 1e-6) || !(u.x0() >= 1 - 1e-9)) h::fail("landau", "four-velocity %s", s4(u).c_str());
    // T u = e u
    FourVector Tu;
    for (int a = 0; a < 4; a++) Tu[a] = want[a][0] * u[0] - want[a][1] * u[1] - want[a][2] * u[2] - want[a][3] * u[3];
    const double e = Tu.x0() / u.x0();
    if (!close4(Tu, u * e, 1e-5, 1e-6 * size) || !(e > 0)) h::fail("landau", "T u = %s, u = %s", s4(Tu).c_str(), s4(u).c_str());
    const auto L = t.boosted(lower);
    for (int i = 1; i < 4; i++)
      if (!h::close(comp(L, 0, i), 0, 0, 1e-5 * size)) h::fail("landau", "momentum density %g in the Landau frame", comp(L, 0, i));
    if (!h::close(comp(L, 0, 0), e, 1e-5, 1e-6 * size)) h::fail("landau", "energy density %.9g in the Landau frame, expected %.9g", comp(L, 0, 0), e);
    // any boost: the sum of boosted particles, each with its density
    const ThreeVector v(h::uni(rng, -.5, .5), h::uni(rng, -.5, .5), h::uni(rng, -.5, .5));
    const double g = 1 / std::sqrt(1 - v.sqr());
    const FourVector w(g, -v * g);  // lower indices
    const auto B = t.boosted(w);
    double trace = want[0][0] - want[1][1] - want[2][2] - want[3][3];
    if (!h::close(comp(B, 0, 0) - comp(B, 1, 1) - comp(B, 2, 2) - comp(B, 3, 3), trace, 1e-6, 1e-6 * size * g * g)) h::fail("boost", "the trace changes");
    double lam[4][4];
    for (int a = 0; a < 4; a++) {
      FourVector unit;
      unit[a] = 1;
      const FourVector c = unit.lorentz_boost(v);
      for (int b = 0; b < 4; b++) lam[b][a] = c[b];
    }
    for (int a = 0; a < 4; a++)
      for (int b = 0; b < 4; b++) {
        double x = 0;
        for (int i = 0; i < 4; i++)
          for (int j = 0; j < 4; j++) x += lam[a][i] * want[i][j] * lam[b][j];
        const double y = comp(B, a, b);
        if (!h::close(y, x, 1e-6, 1e-6 * size * g * g)) h::fail("boost", "component %d %d of the boosted tensor is %.9g, expected %.9g", a, b, y, x);
      }
  }
  for (int a = -2; a < 6; a++)
    for (int b = -2; b < 6; b++) {
      const bool ok = a >= 0 && b >= 0 && a < 4 && b < 4;
      try {
        EnergyMomentumTensor::tmn_index(std::int8_t(a), std::int8_t(b));
        if (!ok) h::fail("index", "indices %d %d are accepted", a, b);
      } catch (std::invalid_argument &) {
        if (ok) h::fail("index", "indices %d %d are refused", a, b);
      }
    }
}
HARNESS_MAIN
