// R23: potentials, the forces that follow from them, and motion
#include <cmath>
#include <vector>

#include "smash/configuration.h"
#include "smash/density.h"
#include "smash/fields.h"
#include "smash/potentials.h"
#include "smash/propagation.h"

#include "h.h"
#include "params.h"
#include "smashenv.h"
using namespace smash;
namespace {
const double rho0 = 0.168, hc = 0.197327053, MeV = 1e-3;
struct Par {
  double A, B, tau, S, gamma, C, Lambda, sat;
  bool skyrme, symmetry, density_dependent, momentum, vdf, outside;
  std::vector<double> coeffs, powers;
};
Par random_par(h::Rng &rng, bool skyrme, bool symmetry, bool vdf, bool momentum = false, bool outside = true) {
  Par p{};
  p.skyrme = skyrme, p.symmetry = symmetry, p.vdf = vdf, p.momentum = momentum, p.outside = outside;
  p.A = h::uni(rng, -400., -20.), p.B = h::uni(rng, 30., 350.), p.tau = h::uni(rng, 1.1, 2.3);
  p.S = h::uni(rng, 10., 30.), p.density_dependent = h::chance(rng, .5), p.gamma = h::uni(rng, .4, 2.);
  p.C = h::uni(rng, -80., -20.), p.Lambda = h::uni(rng, 1., 4.), p.sat = h::uni(rng, .14, .18);
  const int n = h::range(rng, 1, 4);
  for (int i = 0; i < n; i++) {
    p.coeffs.push_back(h::uni(rng, -250., 250.));
    p.powers.push_back(h::chance(rng, .3) ? double(h::range(rng, 2, 4)) : h::uni(rng, 1.5, 4.));
  }
  return p;
}
std::string text(const Par &p) {
  std::ostringstream s;
  s.precision(17);
  s << "Potentials:\n    Use_Potentials_Outside_Lattice: " << (p.outside ? "true" : "false") << "\n";
  if (p.skyrme) s << "    Skyrme:\n        Skyrme_A: " << p.A << "\n        Skyrme_B: " << p.B << "\n        Skyrme_Tau: " << p.tau << "\n";
  if (p.symmetry) {
    s << "    Symmetry:\n        S_Pot: " << p.S << "\n";
    if (p.density_dependent) s << "        gamma: " << p.gamma << "\n";
  }
  if (p.momentum) s << "    Momentum_Dependence:\n        C: " << p.C << "\n        Lambda: " << p.Lambda << "\n";
  if (p.vdf) {
    s << "    VDF:\n        Sat_rhoB: " << p.sat << "\n        Coeffs: [";
    for (size_t i = 0; i < p.coeffs.size(); i++) s << (i ? ", " : "") << p.coeffs[i];
    s << "]\n        Powers: [";
    for (size_t i = 0; i < p.powers.size(); i++) s << (i ? ", " : "") << p.powers[i];
    s << "]\n";
  }
  return s.str();
}
struct Env {
  ExperimentParameters ep;
  DensityParameters dens;
  Potentials pot;
  explicit Env(const Par &p, int test = 1, int ensembles = 1, double sigma = 1., double cut = 6.)
      : ep(h::params(test, .1, 0., 300., sigma, cut, ensembles)), dens(ep), pot(Configuration(text(p).c_str()), dens) {}
};
// independent potentials
double skyrme(const Par &p, double rho) {
  const double x = std::abs(rho) / rho0;
  return (rho < 0 ? -1 : 1) * MeV * (p.A * x + p.B * std::pow(x, p.tau));
}
double symmetry_energy(const Par &p, double rho) {
  return p.density_dependent ? 12.3 * std::pow(rho / rho0, 2. / 3) + 20 * std::pow(rho / rho0, p.gamma) : 0;
}
double symmetry(const Par &p, double iso, double rho) {
  return MeV * (2 * p.S * iso / rho0 + (p.density_dependent ? symmetry_energy(p, rho) * iso * iso / (rho * rho) : 0));
}
FourVector vdf(const Par &p, double rho, const FourVector &j) {
  // A^μ = Σ C (|ρ|/ρ_sat)^(b-2) j^μ / ρ_sat: changes sign with the current
  double f = 0;
  for (size_t i = 0; i < p.coeffs.size(); i++) f += p.coeffs[i] * MeV * std::pow(std::abs(rho) / p.sat, p.powers[i] - 2) / p.sat;
  return j * f;
}
double momentum_part(const Par &p, double k, double rho) {
  // 2 g C/ρ₀ ∫ d³k'/(2π)³ 1/(1+(k-k')²/Λ²) over the Fermi sphere, momenta in 1/fm
  const double kf = std::cbrt(6 * M_PI * M_PI * rho / 4), L2 = p.Lambda * p.Lambda, q = k / hc;
  const int N = 400;
  double s = 0;
  for (int i = 0; i < N; i++) {
    const double a = kf * (i + .5) / N;
    // integral over the angle
    double w;
    if (q * a < 1e-9)
      w = 2 / (1 + (q * q + a * a) / L2);
    else
      w = L2 / (2 * q * a) * std::log((L2 + (q + a) * (q + a)) / (L2 + (q - a) * (q - a)));
    s += a * a * w;
  }
  return MeV * 2 * 4 * p.C / rho0 * s * kf / N / (4 * M_PI * M_PI);
}
double diff(double a, double b) { return std::abs(a - b); }
ThreeVector random_vec(h::Rng &rng, double s) { return {h::uni(rng, -s, s), h::uni(rng, -s, s), h::uni(rng, -s, s)}; }
bool same(const ThreeVector &a, const ThreeVector &b, double rel, double abs) { return (a - b).abs() <= rel * std::max(a.abs(), b.abs()) + abs; }
ParticleData make(const char *pdg, const ThreeVector &x, const ThreeVector &p, double t = 0) {
  ParticleData d(ParticleType::find(PdgCode(std::string(pdg))));
  d.set_4momentum(d.pole_mass(), p);
  d.set_4position(FourVector(t, x));
  d.set_formation_time(t - 1);
  return d;
}
const std::vector<const char *> baryons{"2212", "2112", "3122", "3222", "3112", "3322", "3334", "2224", "1114", "-2212", "-2112", "-3122", "-2224"};
// scales of both forces: the strange quark takes no part
void scales(const ParticleType &t, double &b, double &i) {
  const std::string s = t.pdgcode().string();
  b = t.baryon_number() * (3. - std::abs(t.strangeness())) / 3;
  i = t.baryon_number();
}
}  // namespace

SECTION(skyrme) {
  h::load_mid(false);
  const int N = h::tier(400);
  for (int n = 0; n < N; n++) {
    const Par p = random_par(rng, true, false, false);
    Env e(p);
    for (int k = 0; k < 20; k++) {
      const double rho = (h::chance(rng, .3) ? -1 : 1) * h::uni(rng, .005, 1.);
      h::at("A=%.17g B=%.17g tau=%.17g rho=%.17g", p.A, p.B, p.tau, rho);
      const double u = e.pot.skyrme_pot(rho);
      if (!h::close(u, skyrme(p, rho), 1e-9, 1e-12)) h::fail("potential", "potential %.9g, formula %.9g", u, skyrme(p, rho));
      const ThreeVector g = random_vec(rng, .3), dt = random_vec(rng, .3), curl = random_vec(rng, .3);
      const double d = 1e-6 * std::abs(rho), slope = (skyrme(p, rho + d) - skyrme(p, rho - d)) / (2 * d);
      const auto f = e.pot.skyrme_force(rho, g, dt, curl);
      if (!same(f.first, (g + dt) * -slope, 1e-5, 1e-7) || !same(f.second, curl * slope, 1e-5, 1e-7))
        h::fail(rho < 0 ? "antimatter" : "force", "force along the gradient %.9g, derivative of the potential %.9g at density %.5g", f.first * (g + dt) / (g + dt).sqr(), -slope, rho);
      h::count(rho < 0 ? "negative densities" : "positive densities");
      h::evaluated(h::current);
    }
    const auto z = e.pot.skyrme_force(0., ThreeVector(), ThreeVector(), ThreeVector());
    if (e.pot.skyrme_pot(0) != 0 || z.first.abs() > 0 || z.second.abs() > 0) h::fail("vacuum", "force without particles");
    const auto o = e.pot.symmetry_force(.1, {1, 1, 1}, {1, 1, 1}, {1, 1, 1}, .2, {1, 1, 1}, {1, 1, 1}, {1, 1, 1});
    const auto v = e.pot.vdf_force({1, 1, 1}, {1, 1, 1}, {1, 1, 1});
    if (o.first.abs() + o.second.abs() + v.first.abs() + v.second.abs() > 0) h::fail("off", "force of a potential that is switched off");
  }
}

SECTION(symmetry) {
  h::load_mid(false);
  const int N = h::tier(400);
  for (int n = 0; n < N; n++) {
    const Par p = random_par(rng, false, true, false);
    Env e(p);
    for (int k = 0; k < 20; k++) {
      const double rho = h::uni(rng, .01, .8), iso = h::uni(rng, -.5, .5) * rho;
      h::at("S=%.17g gamma=%.17g (%d) rho=%.17g iso=%.17g", p.S, p.gamma, p.density_dependent, rho, iso);
      const double u = e.pot.symmetry_pot(iso, rho);
      if (!h::close(u, symmetry(p, iso, rho), 1e-9, 1e-13)) h::fail("potential", "potential %.9g, formula %.9g", u, symmetry(p, iso, rho));
      if (!h::close(e.pot.symmetry_S(rho), symmetry_energy(p, rho), 1e-9, 1e-13)) h::fail("energy", "symmetry energy %.9g, formula %.9g", e.pot.symmetry_S(rho), symmetry_energy(p, rho));
      const double d = 1e-6 * rho;
      const double si = (symmetry(p, iso + d, rho) - symmetry(p, iso - d, rho)) / (2 * d), sb = (symmetry(p, iso, rho + d) - symmetry(p, iso, rho - d)) / (2 * d);
      ThreeVector v[6];
      for (auto &x : v) x = random_vec(rng, .3);
      const auto f = e.pot.symmetry_force(iso, v[0], v[1], v[2], rho, v[3], v[4], v[5]);
      if (!same(f.first, (v[0] + v[1]) * -si - (v[3] + v[4]) * sb, 2e-5, 1e-7) || !same(f.second, v[2] * si + v[5] * sb, 2e-5, 1e-7))
        h::fail("force", "force %.9g %.9g, derivatives of the potential give %.9g %.9g", f.first.abs(), f.second.abs(), ((v[0] + v[1]) * si + (v[3] + v[4]) * sb).abs(),
                (v[2] * si + v[5] * sb).abs());
      h::count(p.density_dependent ? "density dependent" : "constant");
      h::evaluated(h::current);
    }
    if (p.density_dependent) {
      // more antibaryons than baryons, or neither
      for (const double rho : {-h::uni(rng, .01, .3), 0.}) {
        h::at("S=%.17g gamma=%.17g rho=%.17g", p.S, p.gamma, rho);
        const ThreeVector g(.1, .1, .1);
        const auto f = e.pot.symmetry_force(rho * .2, g, g, g, rho, g, g, g);
        if (!std::isfinite(e.pot.symmetry_pot(rho * .2, rho)) || !std::isfinite(f.first.abs())) h::fail("finite", "no finite potential or force at net density %.6g", rho);
      }
    }
  }
}

SECTION(vdf) {
  h::load_mid(false);
  const int N = h::tier(400);
  for (int n = 0; n < N; n++) {
    const Par p = random_par(rng, false, false, true);
    Env e(p);
    for (int k = 0; k < 20; k++) {
      // a current that depends linearly on time and place
      const double sign = h::chance(rng, .3) ? -1 : 1;
      const FourVector j0 = FourVector(h::uni(rng, .05, .6), random_vec(rng, .02)) * sign;
      FourVector J[4];
      for (auto &x : J) x = FourVector(h::uni(rng, -.1, .1), random_vec(rng, .1));
      const auto j = [&](const FourVector &x) { return j0 + J[0] * x.x0() + J[1] * x.x1() + J[2] * x.x2() + J[3] * x.x3(); };
      const auto rho = [&](const FourVector &x) { return sign * j(x).abs(); };
      const auto A = [&](const FourVector &x) { return vdf(p, rho(x), j(x)); };
      h::at("%s j=%.6g,%.6g,%.6g,%.6g", text(p).substr(0, 400).c_str(), j0.x0(), j0.x1(), j0.x2(), j0.x3());
      const double r = rho(FourVector());
      const FourVector a = e.pot.vdf_pot(r, j0), b = A(FourVector());
      const double size = 1e-9 * (std::abs(b.x0()) + 1e-3);
      if (diff(a.x0(), b.x0()) > size || !same(a.threevec(), b.threevec(), 1e-9, size))
        h::fail(sign < 0 ? "antimatter" : "potential", "potential %.9g, formula %.9g at density %.5g", a.x0(), b.x0(), r);
      FourVector dA[4], dr4;
      const double s = 1e-5;
      for (int m = 0; m < 4; m++) {
        FourVector x, y;
        x[size_t(m)] = s;
        y[size_t(m)] = -s;
        dA[m] = (A(x) - A(y)) * (1 / (2 * s));
        dr4[size_t(m)] = (rho(x) - rho(y)) / (2 * s);
      }
      const ThreeVector gradA0(dA[1].x0(), dA[2].x0(), dA[3].x0()), E = (gradA0 + dA[0].threevec()) * -1.;
      const ThreeVector B(dA[2].x3() - dA[3].x2(), dA[3].x1() - dA[1].x3(), dA[1].x2() - dA[2].x1());
      const ThreeVector gj0(J[1].x0(), J[2].x0(), J[3].x0());
      const ThreeVector curl(J[2].x3() - J[3].x2(), J[3].x1() - J[1].x3(), J[1].x2() - J[2].x1());
      const auto f = e.pot.vdf_force(r, dr4.x0(), dr4.threevec(), dr4.threevec().cross_product(j0.threevec()), j0.x0(), gj0, j0.threevec(), J[0].threevec(), curl);
      if (!same(f.first, E, 1e-4, 1e-5) || !same(f.second, B, 1e-4, 1e-5))
        h::fail(sign < 0 ? "antimatter" : "force", "fields %.9g and %.9g, derivatives of the potential %.9g and %.9g at density %.5g", f.first.abs(), f.second.abs(), E.abs(), B.abs(), r);
      const auto g = e.pot.vdf_force(gradA0, dA[0].threevec(), B);
      if (!same(g.first, E, 1e-9, 1e-12) || !same(g.second, B, 1e-9, 1e-12)) h::fail("direct", "fields from derivatives of the potential");
      h::count(sign < 0 ? "negative densities" : "positive densities");
      h::evaluated(h::current);
    }
    const FourVector z = e.pot.vdf_pot(0, FourVector());
    if (!(z.x0() == 0)) h::fail("vacuum", "potential %.6g without particles", z.x0());
  }
  // powers and coefficients come in pairs
  Par p = random_par(rng, false, false, true);
  p.powers.push_back(2.);
  bool refused = false;
  try {
    Env e(p);
  } catch (const std::invalid_argument &) {
    refused = true;
  }
  if (!refused) h::fail("pairs", "more powers than coefficients accepted");
  p.coeffs.push_back(1.);
  p.powers[0] = -1;
  refused = false;
  try {
    Env e(p);
  } catch (const std::invalid_argument &) {
    refused = true;
  }
  if (!refused) h::fail("negative", "negative power accepted");
}

SECTION(scale) {
  h::load_full(false);
  for (const auto &t : ParticleType::list_all()) {
    double b, i;
    scales(t, b, i);
    const auto s = Potentials::force_scale(t);
    if (!h::close(s.first, b, 1e-12, 1e-12) || s.second != int(i)) h::fail("scale", "scales %.6g %d of %s, expected %.6g %.0f", s.first, s.second, t.name().c_str(), b, i);
    h::evaluated(t.name());
  }
}

SECTION(gradient) {
  // the force is minus the gradient of the potential for particles at rest, and that of the moving current for others
  h::load_mid(false);
  const int N = h::tier(120);
  for (int n = 0; n < N; n++) {
    const int mode = n % 3;
    Par p = random_par(rng, mode == 0, mode == 1, mode == 2);
    if (mode == 1) p.skyrme = h::chance(rng, .5);
    const double sigma = h::uni(rng, .7, 1.5);
    const int test = h::range(rng, 1, 4);
    Env e(p, test, 1, sigma, 6.);
    const bool still = n % 2 == 0, anti = mode != 1 && h::chance(rng, .4);
    ParticleList list;
    const int many = h::range(rng, 1, 12);
    for (int k = 0; k < many; k++) {
      // either matter or antimatter
      const char *pdg = baryons[size_t(anti ? 9 + h::below(rng, 4) : h::below(rng, 9))];
      list.push_back(make(pdg, random_vec(rng, 2.), still ? ThreeVector() : random_vec(rng, .6)));
      if (h::chance(rng, .3)) list.push_back(make("211", random_vec(rng, 2.), ThreeVector()));
    }
    const ThreeVector r = random_vec(rng, 2.);
    const auto &act = ParticleType::find(PdgCode(std::string(h::pick(rng, baryons))));
    double sb, si;
    scales(act, sb, si);
    const double iso = si * act.isospin3_rel();
    h::at("%s %d baryons%s, on %s, mode %d %s", anti ? "anti" : "", many, still ? " at rest" : "", act.name().c_str(), mode, text(p).substr(40, 300).c_str());
    if (e.pot.potential(r, list, ParticleType::find(PdgCode(0x211))) != 0) h::fail("meson", "potential acts on a pion");
    const auto F = e.pot.all_forces(r, list);
    const double d = 1e-4;
    if (still) {
      const ThreeVector got = std::get<0>(F) * sb + std::get<2>(F) * iso;
      ThreeVector want;
      for (size_t k = 0; k < 3; k++) {
        ThreeVector a = r, b = r;
        a[k] += d;
        b[k] -= d;
        want[k] = -(e.pot.potential(a, list, act) - e.pot.potential(b, list, act)) / (2 * d);
      }
      if (!same(got, want, 2e-4, 2e-6))
        h::fail(anti ? "antimatter" : "force", "force %.9g %.9g %.9g, gradient of the potential %.9g %.9g %.9g", got.x1(), got.x2(), got.x3(), want.x1(), want.x2(), want.x3());
      if (std::get<1>(F).abs() + std::get<3>(F).abs() > 1e-12) h::fail("magnetic", "magnetic field of particles at rest");
      // what the potential is
      const auto c = current_eckart(r, list, e.dens, DensityType::Baryon, false, true);
      const double rho = std::get<0>(c);
      double u = 0;
      if (p.skyrme) u += sb * skyrme(p, rho);
      if (p.symmetry) u += iso * symmetry(p, std::get<0>(current_eckart(r, list, e.dens, DensityType::BaryonicIsospin, false, true)), rho);
      if (p.vdf) u += sb * vdf(p, rho, std::get<1>(c)).x0();
      const double v = e.pot.potential(r, list, act);
      if (!h::close(u, v, 1e-7, 1e-10)) h::fail(anti ? "antimatter" : "potential", "potential %.9g, formula %.9g", v, u);
      h::count("at rest");
    } else {
      // derivatives of the current in space and time from displaced points and particles
      const auto j = [&](const ThreeVector &x, double t, DensityType ty, double *rho) {
        ParticleList moved = list;
        for (auto &q : moved) q.set_4position(FourVector(t, q.position().threevec() + q.velocity() * t));
        const auto c = current_eckart(x, moved, e.dens, ty, false, true);
        if (rho) *rho = std::get<0>(c);
        return std::get<1>(c);
      };
      const auto EB = [&](DensityType ty, ThreeVector &g, ThreeVector &dt, ThreeVector &curl) {
        FourVector D[4];
        D[0] = (j(r, d, ty, nullptr) - j(r, -d, ty, nullptr)) * (1 / (2 * d));
        for (size_t k = 0; k < 3; k++) {
          ThreeVector a = r, b = r;
          a[k] += d;
          b[k] -= d;
          D[k + 1] = (j(a, 0, ty, nullptr) - j(b, 0, ty, nullptr)) * (1 / (2 * d));
        }
        g = ThreeVector(D[1].x0(), D[2].x0(), D[3].x0());
        dt = D[0].threevec();
        curl = ThreeVector(D[2].x3() - D[3].x2(), D[3].x1() - D[1].x3(), D[1].x2() - D[2].x1());
      };
      double rho = 0, rhoI = 0;
      const FourVector jb = j(r, 0, DensityType::Baryon, &rho);
      j(r, 0, DensityType::BaryonicIsospin, &rhoI);
      if (std::abs(rho) < 1e-3) continue;  // far from all
      ThreeVector g, dt, curl, gi, dti, curli;
      EB(DensityType::Baryon, g, dt, curl);
      EB(DensityType::BaryonicIsospin, gi, dti, curli);
      ThreeVector E, B, EI, BI;
      const double s = 1e-6 * std::abs(rho);
      if (p.skyrme) {
        const double slope = (skyrme(p, rho + s) - skyrme(p, rho - s)) / (2 * s);
        E = (g + dt) * -slope;
        B = curl * slope;
      }
      if (p.symmetry) {
        const double a = (symmetry(p, rhoI + s, rho) - symmetry(p, rhoI - s, rho)) / (2 * s), b = (symmetry(p, rhoI, rho + s) - symmetry(p, rhoI, rho - s)) / (2 * s);
        EI = (gi + dti) * -a - (g + dt) * b;
        BI = curli * a + curl * b;
      }
      if (p.vdf) {
        // positive and negative currents do not mix here, so the density is that of the current
        const auto A = [&](const ThreeVector &x, double t) {
          const FourVector jj = j(x, t, DensityType::Baryon, nullptr);
          return vdf(p, (rho < 0 ? -1 : 1) * jj.abs(), jj);
        };
        FourVector D[4];
        D[0] = (A(r, d) - A(r, -d)) * (1 / (2 * d));
        for (size_t k = 0; k < 3; k++) {
          ThreeVector a = r, b = r;
          a[k] += d;
          b[k] -= d;
          D[k + 1] = (A(a, 0) - A(b, 0)) * (1 / (2 * d));
        }
        E = (ThreeVector(D[1].x0(), D[2].x0(), D[3].x0()) + D[0].threevec()) * -1.;
        B = ThreeVector(D[2].x3() - D[3].x2(), D[3].x1() - D[1].x3(), D[1].x2() - D[2].x1());
      }
      if (!same(std::get<0>(F), E, 1e-3, 1e-5) || !same(std::get<1>(F), B, 1e-3, 1e-5) || !same(std::get<2>(F), EI, 1e-3, 1e-5) || !same(std::get<3>(F), BI, 1e-3, 1e-5))
        h::fail(anti ? "antimatter" : "moving", "fields %.6g %.6g %.6g %.6g, from the current %.6g %.6g %.6g %.6g", std::get<0>(F).abs(), std::get<1>(F).abs(), std::get<2>(F).abs(),
                std::get<3>(F).abs(), E.abs(), B.abs(), EI.abs(), BI.abs());
      h::count("moving");
    }
    h::count(anti ? "antimatter" : "matter");
    h::evaluated(h::current);
  }
}

namespace {
/// fixed fields
class Fixed : public Potentials {
 public:
  Fixed(const Par &p, const DensityParameters &d, ThreeVector a, ThreeVector b, ThreeVector c, ThreeVector e)
      : Potentials(Configuration(text(p).c_str()), d), f(a, b, c, e) {}
  std::tuple<ThreeVector, ThreeVector, ThreeVector, ThreeVector> all_forces(const ThreeVector &, const ParticleList &) const override { return f; }
  std::tuple<ThreeVector, ThreeVector, ThreeVector, ThreeVector> f;
};
using FieldLattice = RectangularLattice<std::pair<ThreeVector, ThreeVector>>;
}  // namespace

SECTION(kick) {
  // momenta change by force times time, and who feels which force
  h::load_mid(false);
  const int N = h::tier(200);
  for (int n = 0; n < N; n++) {
    Par p = random_par(rng, false, h::chance(rng, .6), false, false, h::chance(rng, .6));
    const int which = h::below(rng, 3);
    p.skyrme = which == 1, p.vdf = which == 2;
    const bool coulomb = h::chance(rng, .4);
    Env e(p, 1);
    ThreeVector f[4];
    for (auto &x : f) x = random_vec(rng, .1);
    Configuration conf(text(p).c_str());
    conf.clear();
    const bool lattice = h::chance(rng, .6);
    const double L = h::uni(rng, 4., 8.);
    const int cells = h::range(rng, 2, 5);
    const std::array<double, 3> size{L, L, L}, origin{-L / 2, -L / 2, -L / 2};
    const std::array<int, 3> num{cells, cells, cells};
    std::vector<std::unique_ptr<FieldLattice>> lats;
    for (int k = 0; k < 3; k++) {
      lats.push_back(std::make_unique<FieldLattice>(size, num, origin, false, LatticeUpdate::EveryTimestep));
      for (size_t c = 0; c < lats.back()->size(); c++) (*lats.back())[c] = {random_vec(rng, .1), random_vec(rng, .1)};
    }
    struct WithCoulomb : Fixed {
      using Fixed::Fixed;
      bool c = false;
      bool use_coulomb() const override { return c; }
    } pot(p, e.dens, f[0], f[1], f[2], f[3]);
    pot.c = coulomb;
    std::vector<Particles> ens(size_t(h::range(rng, 1, 3)));
    std::vector<std::vector<ParticleData>> before;
    for (auto &q : ens) {
      for (int k = 0; k < 8; k++) {
        const char *pdg = h::chance(rng, .25) ? (h::chance(rng, .5) ? "211" : "-321") : h::pick(rng, baryons);
        ParticleData d = make(pdg, random_vec(rng, .8 * L), random_vec(rng, 1.));
        if (h::chance(rng, .3)) d.set_4momentum(d.pole_mass() * h::uni(rng, .9, 1.3), d.momentum().threevec());
        q.insert(d);
      }
      before.emplace_back(q.begin(), q.end());
    }
    const double dt = h::uni(rng, .01, .5);
    h::at("mode %d symmetry %d coulomb %d lattice %d outside %d dt %.6g", which, p.symmetry, coulomb, lattice, p.outside, dt);
    update_momenta(ens, dt, pot, lattice ? lats[0].get() : nullptr, lattice ? lats[1].get() : nullptr, lats[2].get(), nullptr);
    for (size_t a = 0; a < ens.size(); a++) {
      size_t i = 0;
      for (const auto &d : ens[a]) {
        const auto &o = before[a][i++];
        const ThreeVector x = o.position().threevec();
        bool on = true;
        size_t cell = 0, fac = 1;
        bool edge = false;
        for (size_t k = 0; k < 3; k++) {
          const double r = (x[k] + L / 2) / L * cells;
          if (std::abs(r - std::round(r)) < 1e-9) edge = true;
          if (r < 0 || r >= cells) on = false;
          else cell += fac * size_t(r);
          fac *= size_t(cells);
        }
        if (edge) continue;
        ThreeVector force;
        if (o.type().is_baryon()) {
          double sb, si;
          scales(o.type(), sb, si);
          const ThreeVector v = o.momentum().threevec() * (1 / std::sqrt(o.momentum().sqr() + o.momentum().threevec().sqr()));
          const bool any = p.skyrme || p.vdf || p.symmetry;
          const bool use = (lattice || !any) && (on || !any);
          if (use || p.outside) {
            ThreeVector E = f[0], B = f[1], EI = f[2], BI = f[3];
            if (use && any) {
              E = (*lats[0])[cell].first, B = (*lats[0])[cell].second;
              EI = (*lats[1])[cell].first, BI = (*lats[1])[cell].second;
            }
            if (!(p.skyrme || p.vdf) && use) E = B = ThreeVector();
            if (!p.symmetry && use) EI = BI = ThreeVector();
            force = (E + v.cross_product(B)) * sb + (EI + v.cross_product(BI)) * (si * o.type().isospin3_rel());
            if (coulomb && on)
              force += ((*lats[2])[cell].first + v.cross_product((*lats[2])[cell].second)) * (hc * o.type().charge() * std::sqrt(4 * M_PI / 137.036));
            h::count(use ? "on the lattice" : "direct");
          } else {
            h::count("outside");
          }
        } else {
          h::count("mesons");
        }
        const ThreeVector got = d.momentum().threevec() - o.momentum().threevec();
        if (!same(got, force * dt, 1e-4, 1e-9))
          h::fail("kick", "momentum of %s changes by %.9g %.9g %.9g, force times time %.9g %.9g %.9g", o.type().name().c_str(), got.x1(), got.x2(), got.x3(), force.x1() * dt,
                  force.x2() * dt, force.x3() * dt);
        if (std::abs(d.momentum().abs() - o.momentum().abs()) > 1e-6) h::fail("mass", "mass of %s changes from %.9g to %.9g", o.type().name().c_str(), o.momentum().abs(), d.momentum().abs());
        if (d.position() != o.position() || d.id() != o.id()) h::fail("place", "particle moved by a kick");
      }
    }
    h::evaluated(h::current);
  }
}

SECTION(energy) {
  // a particle in the field of others that are at rest keeps its energy
  h::load_mid(false);
  const int N = h::tier(12);
  for (int n = 0; n < N; n++) {
    Par p = random_par(rng, n % 2 == 0, n % 3 == 0, n % 2 == 1);
    // gentle
    p.A *= .3, p.B *= .3;
    for (auto &c : p.coeffs) c *= .2;
    for (auto &w : p.powers) w = std::max(w, 2.);
    const int test = 4;
    Env e(p, test, 1, 1., 6.);
    ParticleList field;
    for (int k = 0; k < 12; k++) field.push_back(make(h::chance(rng, .5) ? "2212" : "2112", random_vec(rng, 2.), ThreeVector()));
    struct Held : Potentials {
      Held(const Par &q, const DensityParameters &d, const ParticleList &l) : Potentials(Configuration(text(q).c_str()), d), list(l) {}
      std::tuple<ThreeVector, ThreeVector, ThreeVector, ThreeVector> all_forces(const ThreeVector &r, const ParticleList &) const override { return Potentials::all_forces(r, list); }
      const ParticleList &list;
    } pot(p, e.dens, field);
    std::vector<Particles> ens(1);
    // the test particle must not be in the list that makes the field
    ens[0].insert(make(h::pick(rng, baryons), random_vec(rng, 1.) + ThreeVector(-4, 0, 0), ThreeVector(h::uni(rng, .3, .9), h::uni(rng, -.1, .1), h::uni(rng, -.1, .1))));
    h::at("%s in the field of %d, %s", ens[0].front().type().name().c_str(), 12, text(p).substr(40, 300).c_str());
    const auto energy = [&]() {
      const auto &d = ens[0].front();
      return d.momentum().x0() + pot.potential(d.position().threevec(), field, d.type());
    };
    const double E0 = energy();
    double worst = 0, moved = 0, t = 0;
    const double dt = .02;
    const ThreeVector p0 = ens[0].front().momentum().threevec();
    for (int k = 0; k < 500; k++) {
      t += dt / 2;
      propagate_straight_line(&ens[0], t, {});
      update_momenta(ens, dt, pot, nullptr, nullptr, nullptr, nullptr);
      t += dt / 2;
      propagate_straight_line(&ens[0], t, {});
      worst = std::max(worst, std::abs(energy() - E0));
      moved = std::max(moved, (ens[0].front().momentum().threevec() - p0).abs());
    }
    h::count("steps", 500);
    if (worst > 2e-3 + .02 * moved) h::fail("energy", "energy changes by %.6g GeV, momentum by %.6g", worst, moved);
    h::evaluated(h::current);
  }
}

SECTION(momentum) {
  h::load_mid(false);
  const int N = h::tier(150);
  for (int n = 0; n < N; n++) {
    Par p = random_par(rng, true, false, false, true);
    // not so attractive that no state with positive energy is left
    while (std::min({skyrme(p, .1), skyrme(p, .2), skyrme(p, .3), skyrme(p, .4), skyrme(p, .6)}) < -.2)
      p = random_par(rng, true, false, false, true);
    Env e(p);
    if (!e.pot.use_momentum_dependence()) h::fail("on", "momentum dependence is not on");
    for (int k = 0; k < 6; k++) {
      const double m = h::uni(rng, .9, 1.5), rho = h::uni(rng, .01, .5);
      const ThreeVector mom = h::chance(rng, .1) ? ThreeVector() : random_vec(rng, .8);
      const ThreeVector v = k % 2 ? ThreeVector() : random_vec(rng, .3);
      const double g = 1 / std::sqrt(1 - v.sqr());
      const FourVector j(rho * g, v * (rho * g));
      h::at("A=%.6g B=%.6g tau=%.6g C=%.6g L=%.6g rho=%.6g v=%.4g m=%.6g p=%.17g,%.17g,%.17g", p.A, p.B, p.tau, p.C, p.Lambda, rho, v.abs(), m, mom.x1(), mom.x2(), mom.x3());
      const double E = e.pot.calculation_frame_energy(mom, j, m);
      // in the frame of the matter the energy is that of the potential
      const double Erest = g * (E - v * mom);
      const double prest = std::sqrt(std::max(0., mom.sqr() - E * E + Erest * Erest));
      const double U = skyrme(p, rho) + momentum_part(p, prest, rho);
      const double want = std::sqrt(m * m + prest * prest) + U;
      if (std::abs(std::abs(Erest) - std::abs(want)) > 2e-4 * (1 + std::abs(want)))
        h::fail(k % 2 ? "rest" : "moving", "energy %.9g in the frame of the matter, potential gives %.9g", Erest, want);
      h::evaluated(h::current);
    }
    // gradient by differences of the energy at neighbouring points
    ParticleList list;
    for (int k = 0; k < 8; k++) list.push_back(make("2212", random_vec(rng, 1.5), random_vec(rng, .3)));
    const ThreeVector r = random_vec(rng, 1.5), mom = random_vec(rng, .6);
    const ThreeVector got = e.pot.single_particle_energy_gradient(nullptr, r, mom, .938, list);
    ThreeVector want;
    for (size_t i = 0; i < 3; i++) {
      double s[2];
      for (int w = 0; w < 2; w++) {
        ThreeVector x = r;
        x[i] += w ? .1 : -.1;
        s[w] = e.pot.calculation_frame_energy(mom, std::get<1>(current_eckart(x, list, e.dens, DensityType::Baryon, false, true)), .938);
      }
      want[i] = (s[1] - s[0]) / .2;
    }
    // any reasonable step is right up to second order
    if (!same(got, want, .03, 2e-3)) h::fail("gradient", "gradient %.6g %.6g %.6g, differences %.6g %.6g %.6g", got.x1(), got.x2(), got.x3(), want.x1(), want.x2(), want.x3());
    std::vector<Particles> ens(1);
    for (const auto &d : list) ens[0].insert(d);
    std::vector<ThreeVector> old;
    for (const auto &d : ens[0]) old.push_back(d.momentum().threevec());
    ParticleList copy = ens[0].copy_to_vector();
    update_momenta(ens, .05, e.pot, nullptr, nullptr, nullptr, nullptr);
    size_t i = 0;
    for (const auto &d : ens[0]) {
      const ThreeVector f = e.pot.single_particle_energy_gradient(nullptr, copy[i].position().threevec(), copy[i].momentum().threevec(), copy[i].effective_mass(), copy) * -.05;
      if (!same(d.momentum().threevec() - old[i], f, 1e-3, 1e-7)) h::fail("kick", "momentum changes by %.6g, gradient gives %.6g", (d.momentum().threevec() - old[i]).abs(), f.abs());
      i++;
    }
    h::count("gradients");
  }
}

SECTION(fields) {
  h::load_mid(false);
  const int N = h::tier(20);
  for (int n = 0; n < N; n++) {
    Par p = random_par(rng, false, false, true);
    Env e(p);
    const std::array<double, 3> size{h::uni(rng, 4., 8.), h::uni(rng, 4., 8.), h::uni(rng, 4., 8.)}, origin{h::uni(rng, -5., 0.), h::uni(rng, -5., 0.), h::uni(rng, -5., 0.)};
    const std::array<int, 3> num{h::range(rng, 3, 6), h::range(rng, 3, 6), h::range(rng, 3, 6)};
    const bool periodic = h::chance(rng, .5);
    const auto upd = LatticeUpdate::EveryTimestep;
    RectangularLattice<FieldsOnLattice> lat(size, num, origin, periodic, upd);
    RectangularLattice<FourVector> old(size, num, origin, periodic, upd), now(size, num, origin, periodic, upd);
    RectangularLattice<std::array<FourVector, 4>> grad(size, num, origin, periodic, upd);
    DensityLattice dens(size, num, origin, periodic, upd);
    std::vector<FourVector> prev(lat.size());
    const double dt = h::uni(rng, .05, .5);
    for (int step = 0; step < 3; step++) {
      std::vector<FourVector> A(lat.size());
      bool negative = false;
      for (size_t c = 0; c < lat.size(); c++) {
        DensityOnLattice d;
        const double g = h::uni(rng, .06, .6);
        const FourVector j(g, random_vec(rng, .02));
        const bool neg = h::chance(rng, .2);
        negative |= neg;
        if (neg) d.add_to_jmu_neg(j * -1.);
        else d.add_to_jmu_pos(j);
        dens[c] = d;
        A[c] = vdf(p, neg ? -j.abs() : j.abs(), neg ? j * -1. : j);
        if (neg) h::count("negative nodes");
      }
      h::at("%s step %d periodic %d", text(p).substr(40, 300).c_str(), step, periodic);
      update_fields_lattice(&lat, &old, &now, &grad, &dens, upd, e.pot, dt);
      for (size_t c = 0; c < lat.size(); c++) {
        auto node = lat[c];
        const FourVector a = node.A_mu();
        if (diff(a.x0(), A[c].x0()) > 1e-9 * (1 + std::abs(A[c].x0())) || !same(a.threevec(), A[c].threevec(), 1e-9, 1e-12))
          h::fail(dens[c].rho() < 0 ? "antimatter" : "field", "field %.9g in a cell with density %.6g, potential %.9g", a.x0(), dens[c].rho(), A[c].x0());
        const FourVector pot = e.pot.vdf_pot(dens[c].rho(), dens[c].jmu_net());
        if (diff(a.x0(), pot.x0()) > 1e-9 * (1 + std::abs(pot.x0()))) h::fail("agree", "field %.9g and potential %.9g differ", a.x0(), pot.x0());
        const ThreeVector dAdt = (A[c] - prev[c]).threevec() * (1 / dt);
        if (!same(node.dvecA_dt(), dAdt, 1e-6, 1e-8)) h::fail("time", "time derivative %.9g, difference of the steps %.9g", node.dvecA_dt().abs(), dAdt.abs());
        // inside: differences of the neighbours
        const int nx = num[0], ny = num[1], nz = num[2], ix = int(c) % nx, iy = int(c) / nx % ny, iz = int(c) / nx / ny;
        if (!periodic && (ix == 0 || iy == 0 || iz == 0 || ix == nx - 1 || iy == ny - 1 || iz == nz - 1)) continue;
        const auto at = [&](int x, int y, int z) { return A[size_t((x + nx) % nx + nx * ((y + ny) % ny + ny * ((z + nz) % nz)))]; };
        const FourVector dx = (at(ix + 1, iy, iz) - at(ix - 1, iy, iz)) * (.5 * nx / size[0]), dy = (at(ix, iy + 1, iz) - at(ix, iy - 1, iz)) * (.5 * ny / size[1]),
                         dz = (at(ix, iy, iz + 1) - at(ix, iy, iz - 1)) * (.5 * nz / size[2]);
        if (!same(node.grad_A0(), ThreeVector(dx.x0(), dy.x0(), dz.x0()), 1e-6, 1e-8) ||
            !same(node.curl_vecA(), ThreeVector(dy.x3() - dz.x2(), dz.x1() - dx.x3(), dx.x2() - dy.x1()), 1e-6, 1e-8))
          h::fail("space", "derivatives of the field in space");
        h::count("cells");
      }
      prev = A;
    }
    update_fields_lattice(&lat, &old, &now, &grad, &dens, LatticeUpdate::AtOutput, e.pot, dt);
    if (diff(lat[0].A_mu().x0(), prev[0].x0()) > 1e-9 * (1 + std::abs(prev[0].x0()))) h::fail("when", "updated though it is not due");
    h::evaluated(h::current);
  }
  // Coulomb: the field of a charge at a distance
  for (int n = 0; n < h::tier(300); n++) {
    const ThreeVector a = random_vec(rng, 3.), b = random_vec(rng, 3.);
    DensityOnLattice d;
    const FourVector j(h::uni(rng, .1, 1.), random_vec(rng, .05));
    const bool neg = h::chance(rng, .5);
    if (neg) d.add_to_jmu_neg(j * -1.);
    else d.add_to_jmu_pos(j);
    const double q = std::sqrt(4 * M_PI / 137.036) * (neg ? -1 : 1), r = (b - a).abs();
    const ThreeVector E = Potentials::E_field_integrand(a, d, b), B = Potentials::B_field_integrand(a, d, b);
    h::at("charge at distance %.9g", r);
    if (!same(E, (b - a) * (q * j.abs() / (r * r * r)), 1e-4, 1e-12)) h::fail("coulomb", "field %.9g of a charge", E.abs());
    if (!same(B, j.threevec().cross_product(b - a) * (q / (r * r * r)), 1e-4, 1e-12)) h::fail("biot", "field %.9g of a current", B.abs());
    const ThreeVector z = Potentials::E_field_integrand(a, d, a), y = Potentials::B_field_integrand(a, d, a);
    if (z.abs() + y.abs() > 0) h::fail("self", "a charge acts on itself");
  }
}

SECTION(motion) {
  h::load_mid(false);
  const int N = h::tier(300);
  for (int n = 0; n < N; n++) {
    Particles parts;
    const int many = h::range(rng, 1, 30);
    const double t0 = h::uni(rng, -10., 50.);
    for (int k = 0; k < many; k++) {
      const char *pdg = h::chance(rng, .3) ? "211" : h::chance(rng, .1) ? "22" : h::pick(rng, baryons);
      ParticleData d = make(pdg, random_vec(rng, 30.), random_vec(rng, 3.), h::chance(rng, .7) ? t0 : t0 - h::uni(rng, 0., 2.));
      HistoryData hist;
      hist.collisions_per_particle = h::chance(rng, .3) ? h::range(rng, 1, 3) : 0;
      d.set_history(std::move(hist));
      parts.insert(d);
    }
    std::vector<FourVector> beam;
    if (h::chance(rng, .5))
      for (int k = 0, b = h::range(rng, 1, 40); k < b; k++) {
        const ThreeVector v = random_vec(rng, 2.);
        beam.push_back(FourVector(std::sqrt(.938 * .938 + v.sqr()), v));
      }
    const std::vector<ParticleData> before(parts.begin(), parts.end());
    const double to = t0 + (h::chance(rng, .1) ? 0. : h::uni(rng, 0., 20.));
    h::at("%d particles from %.17g to %.17g, %zu of the beam", many, t0, to, beam.size());
    propagate_straight_line(&parts, to, beam);
    size_t i = 0;
    for (const auto &d : parts) {
      const auto &o = before[i++];
      const bool frozen = size_t(o.id()) < beam.size() && o.get_history().collisions_per_particle == 0;
      const ThreeVector v = frozen ? beam[size_t(o.id())].threevec() * (1 / beam[size_t(o.id())].x0()) : o.momentum().threevec() * (1 / o.momentum().x0());
      const ThreeVector x = o.position().threevec() + v * (to - o.position().x0());
      h::count(frozen ? "with the beam" : "freely");
      if (d.position().x0() != to || !same(d.position().threevec(), x, 1e-11, 1e-11))
        h::fail("straight", "particle at %.9g %.9g %.9g %.9g, straight line %.9g %.9g %.9g", d.position().x0(), d.position().x1(), d.position().x2(), d.position().x3(), x.x1(), x.x2(), x.x3());
      if (d.momentum() != o.momentum() || d.id() != o.id() || d.formation_time() != o.formation_time()) h::fail("else", "free motion changes a particle");
    }
    // back to the earliest time
    Particles late;
    for (const auto &d : before) late.insert(d);
    double first = 1e300;
    for (const auto &d : before) first = std::min(first, d.position().x0());
    const double back = first - (h::chance(rng, .3) ? 0. : h::uni(rng, 0., 5.));
    backpropagate_straight_line(&late, back);
    i = 0;
    for (const auto &d : late) {
      const auto &o = before[i++];
      const ThreeVector x = o.position().threevec() - o.momentum().threevec() * ((o.position().x0() - back) / o.momentum().x0());
      if (d.position().x0() != back || !same(d.position().threevec(), x, 1e-11, 1e-11)) h::fail("back", "particle is not where it came from");
      if (d.formation_time() != o.position().x0()) h::fail("formed", "formation time %.9g, appeared at %.9g", d.formation_time(), o.position().x0());
      if (d.initial_xsec_scaling_factor() != 0) h::fail("scaling", "particle can interact before it appeared");
      if (d.momentum() != o.momentum()) h::fail("else", "going back changes momenta");
    }
    h::evaluated(h::current);
  }
  // expansion
  for (int n = 0; n < h::tier(300); n++) {
    const double b = h::uni(rng, .01, 2.), t = h::uni(rng, 0., 30.), dt = h::uni(rng, .001, .1);
    const struct {
      ExpansionMode mode;
      double h;
    } modes[] = {{ExpansionMode::NoExpansion, 0}, {ExpansionMode::MasslessFRW, b / (2 * (b * t + 1))}, {ExpansionMode::MassiveFRW, 2 * b / (3 * (b * t + 1))}, {ExpansionMode::Exponential, b * t}};
    const auto &m = modes[h::below(rng, 4)];
    const ExpansionProperties metric(m.mode, b);
    h::at("mode %d b=%.17g t=%.17g", int(m.mode), b, t);
    const double got = calc_hubble(t, metric);
    if (!h::close(got, m.h, 1e-12, 1e-15)) h::fail("hubble", "Hubble parameter %.9g, expected %.9g", got, m.h);
    ExperimentParameters ep = h::params(1, dt, t, t + 100.);
    const double step = ep.labclock->timestep_duration();
    Particles parts;
    for (int k = 0; k < 5; k++) parts.insert(make(h::pick(rng, baryons), random_vec(rng, 5.), random_vec(rng, 2.), t));
    const std::vector<ParticleData> before(parts.begin(), parts.end());
    const double hub = calc_hubble(ep.labclock->current_time(), metric);
    expand_space_time(&parts, ep, metric);
    size_t i = 0;
    for (const auto &d : parts) {
      const auto &o = before[i++];
      if (!same(d.position().threevec(), o.position().threevec() * (1 + hub * step), 1e-10, 1e-12) || d.position().x0() != o.position().x0())
        h::fail("expand", "position %.9g, expected %.9g", d.position().threevec().abs(), o.position().threevec().abs() * (1 + hub * step));
      if (!same(d.momentum().threevec(), o.momentum().threevec() * (1 - hub * step), 1e-10, 1e-12))
        h::fail("redshift", "momentum %.9g, expected %.9g", d.momentum().threevec().abs(), o.momentum().threevec().abs() * (1 - hub * step));
      if (std::abs(d.momentum().abs() - o.pole_mass()) > 1e-6) h::fail("shell", "mass %.9g of %s", d.momentum().abs(), o.type().name().c_str());
    }
    h::count("expansions");
    h::evaluated(h::current);
  }
}
HARNESS_MAIN
