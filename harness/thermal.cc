// R25: hadron gas equation of state, thermal sampling and forced thermalization
#include <unistd.h>

#include <cmath>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>

#include "smash/chemicalpotential.h"
#include "smash/density.h"
#include "smash/distributions.h"
#include "smash/grandcan_thermalizer.h"
#include "smash/hadgas_eos.h"
#include "smash/quantumnumbers.h"
#include "smash/quantumsampling.h"
#include "smash/thermalizationaction.h"

#include "h.h"
#include "params.h"
#include "smashenv.h"
#include "stat.h"
using namespace smash;
namespace {
/// scratch directory, in which a table is that covers nothing, so that the equation of state is solved
struct Scratch {
  std::filesystem::path dir, back;
  Scratch() : back(std::filesystem::current_path()) {
    std::string t = (std::filesystem::temp_directory_path() / "vthermXXXXXX").string();
    if (!mkdtemp(t.data())) exit(3);
    dir = t;
    std::filesystem::current_path(dir);
    std::ofstream("hadgas_eos.dat") << "1 1 1\n1 1 1\n0 0 0 0 0\n";
  }
  ~Scratch() {
    std::filesystem::current_path(back);
    for (const char *n : {"hadgas_eos.dat", "t.dat"}) std::filesystem::remove(dir / n);
    std::filesystem::remove(dir);
  }
};
/// swallow what is printed
struct Quiet {
  std::ostringstream s;
  std::streambuf *b;
  Quiet() : b(std::cout.rdbuf(s.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(b); }
};
const double hc3 = 0.197327053 * 0.197327053 * 0.197327053;

struct Moments {
  double n, e, p;
};
/// Boltzmann gas of one species by integration over momenta, with the largest factor taken out of the exponent
Moments gas(double m, double g, double T, double mu) {
  Moments r{0, 0, 0};
  const double top = std::sqrt(2 * m * 60 * T) + 60 * T;
  const int N = 4000;
  for (int i = 0; i < N; i++) {
    const double k = top * (i + .5) / N, E = std::hypot(k, m);
    const double w = k * k * std::exp((mu - E) / T);
    r.n += w;
    r.e += w * E;
    r.p += w * k * k / (3 * E);
  }
  const double f = g * top / N / (2 * M_PI * M_PI * hc3);
  r.n *= f;
  r.e *= f;
  r.p *= f;
  return r;
}
bool hadron_of_gas(const ParticleType &t) {
  if (!t.is_hadron()) return false;
  const std::string s = t.pdgcode().string();
  return t.pdgcode().charmness() == 0 && t.pdgcode().bottomness() == 0 && !t.pdgcode().is_heavy_flavor();
}
struct State {
  double T, mub, mus, muq;
};
double mu_of(const ParticleType &t, const State &s) {
  return t.baryon_number() * s.mub + t.strangeness() * s.mus + t.charge() * s.muq;
}
struct Sums {
  double n = 0, e = 0, b = 0, s = 0, q = 0;
};
Sums sums(const State &s) {
  Sums r;
  for (const auto &t : ParticleType::list_all()) {
    if (!hadron_of_gas(t)) continue;
    const auto m = gas(t.mass(), t.spin() + 1, s.T, mu_of(t, s));
    r.n += m.n;
    r.e += m.e;
    r.b += m.n * t.baryon_number();
    r.s += m.n * t.strangeness();
    r.q += m.n * t.charge();
  }
  return r;
}
bool near(double a, double b, double rel, double abs) { return std::abs(a - b) <= rel * std::max(std::abs(a), std::abs(b)) + abs; }
State state(h::Rng &rng, double lo = 0.06, double hi = 0.25) {
  return {h::uni(rng, lo, hi), h::uni(rng, -.6, .9), h::uni(rng, -.25, .25), h::uni(rng, -.15, .15)};
}
}  // namespace

SECTION(densities) {
  h::load_full(false);
  const int N = h::tier(12, 16);
  for (int i = 0; i < N; i++) {
    State s = state(rng, 0.03, 0.3);
    const bool cold = i % 4 == 3;
    // cold and dense: antibaryons are suppressed beyond what can be represented
    if (cold) s = {h::uni(rng, 0.002, 0.012), h::uni(rng, -1., 1.), h::uni(rng, -.3, .3), h::uni(rng, -.1, .1)};
    h::at("T=%.17g mub=%.17g mus=%.17g muq=%.17g", s.T, s.mub, s.mus, s.muq);
    const Sums r = sums(s);
    const double rel = 1e-5, abs = 1e-12 * r.n;
    const double n = HadronGasEos::density(s.T, s.mub, s.mus, s.muq);
    if (!near(n, r.n, rel, abs)) h::fail("density", "density %.9g, integral over momenta %.9g", n, r.n);
    const double e = HadronGasEos::energy_density(s.T, s.mub, s.mus, s.muq);
    if (!near(e, r.e, rel, 1e-12 * r.e))
      h::fail("energy", "energy density %.9g, integral over momenta %.9g", e, r.e);
    const double p = HadronGasEos::pressure(s.T, s.mub, s.mus, s.muq);
    if (!near(p, s.T * r.n, rel, abs)) h::fail("pressure", "pressure %.9g, T times density %.9g", p, s.T * r.n);
    const double b = HadronGasEos::net_baryon_density(s.T, s.mub, s.mus, s.muq);
    if (!near(b, r.b, rel, 1e-5 * r.n)) h::fail("baryon", "net baryon density %.9g, integral %.9g", b, r.b);
    const double st = HadronGasEos::net_strange_density(s.T, s.mub, s.mus, s.muq);
    if (!near(st, r.s, rel, 1e-5 * r.n)) h::fail("strange", "net strangeness density %.9g, integral %.9g", st, r.s);
    const double q = HadronGasEos::net_charge_density(s.T, s.mub, s.mus, s.muq);
    if (!near(q, r.q, rel, 1e-5 * r.n)) h::fail("charge", "net charge density %.9g, integral %.9g", q, r.q);
    // everything conjugate: densities change sign
    const double cb = HadronGasEos::net_baryon_density(s.T, -s.mub, -s.mus, -s.muq);
    const double cq = HadronGasEos::net_charge_density(s.T, -s.mub, -s.mus, -s.muq);
    if (!near(cb, -b, 1e-9, 1e-9 * r.n) || !near(cq, -q, 1e-9, 1e-9 * r.n))
      h::fail("conjugate", "opposite chemical potentials: baryon density %.9g and %.9g, charge %.9g and %.9g", b, cb, q, cq);
    for (int k = 0; k < 20; k++) {
      const auto &list = ParticleType::list_all();
      const auto &t = list[size_t(h::below(rng, int(list.size())))];
      if (!hadron_of_gas(t)) continue;
      const auto m = gas(t.mass(), t.spin() + 1, s.T, mu_of(t, s));
      const double d = HadronGasEos::partial_density(t, s.T, s.mub, s.mus, s.muq);
      if (!near(d, m.n, 1e-5, 1e-200))
        h::fail("partial", "density of %s %.9g, integral over momenta %.9g", t.name().c_str(), d, m.n);
    }
    h::count("states");
    if (cold) h::count("cold states");
    h::evaluated(h::current);
  }
  if (HadronGasEos::density(0, .3, 0, 0) != 0 || HadronGasEos::energy_density(0, .3, 0, 0) != 0 ||
      HadronGasEos::net_baryon_density(0, .3, 0, 0) != 0)
    h::fail("zero", "density at zero temperature");
  int n = 0, heavy = 0;
  for (const auto &t : ParticleType::list_all()) {
    n++;
    const bool is = HadronGasEos::is_eos_particle(t);
    if (is != hadron_of_gas(t)) h::fail("member", "%s is %spart of the hadron gas", t.name().c_str(), is ? "" : "not ");
    if (!is) heavy++;
  }
  h::count("species", n);
  h::count("species left out", heavy);
}

SECTION(widths) {
  h::load_mid();
  const int N = h::tier(6, 10);
  for (int i = 0; i < N; i++) {
    const State s = state(rng, 0.08, 0.2);
    h::at("T=%.17g mub=%.17g mus=%.17g muq=%.17g", s.T, s.mub, s.mus, s.muq);
    double n = 0, b = 0, q = 0, st = 0;
    for (const auto &t : ParticleType::list_all()) {
      if (!hadron_of_gas(t)) continue;
      double d;
      if (t.is_stable()) {
        d = gas(t.mass(), t.spin() + 1, s.T, mu_of(t, s)).n;
      } else {
        // substitution m = m0 + w/2 tan(u), until the thermal weight is negligible
        const double w = t.width_at_pole(), a = std::atan(2 * (t.min_mass_spectral() - t.mass()) / w);
        d = 0;
        const int K = 3000;
        for (int k = 0; k < K; k++) {
          const double u = a + (M_PI / 2 - a) * (k + .5) / K, tu = std::tan(u), m = t.mass() + w / 2 * tu;
          const double x = m / s.T;
          if ((mu_of(t, s) - m) / s.T < -300) continue;
          d += t.spectral_function(m) * w / 2 * (1 + tu * tu) * (t.spin() + 1) * m * m * s.T * std::cyl_bessel_k(2, x) *
               std::exp(mu_of(t, s) / s.T);
        }
        d *= (M_PI / 2 - a) / K / (2 * M_PI * M_PI * hc3);
      }
      const double got = HadronGasEos::partial_density(t, s.T, s.mub, s.mus, s.muq, true);
      if (!near(got, d, 4e-3, 1e-8 * 6.6 * s.T * s.T * s.T)) h::fail("partial", "density of %s with its width %.9g, integral %.9g", t.name().c_str(), got, d);
      n += got;
      b += got * t.baryon_number();
      st += got * t.strangeness();
      q += got * t.charge();
      h::count(t.is_stable() ? "stable" : "wide");
    }
    const double tot = HadronGasEos::density(s.T, s.mub, s.mus, s.muq, true);
    if (!near(tot, n, 1e-9, 0)) h::fail("total", "density %.9g, sum over species %.9g", tot, n);
    if (!near(HadronGasEos::pressure(s.T, s.mub, s.mus, s.muq, true), s.T * n, 1e-9, 0)) h::fail("pressure", "pressure is not T times density");
    if (!near(HadronGasEos::net_baryon_density(s.T, s.mub, s.mus, s.muq, true), b, 1e-9, 1e-9 * n) ||
        !near(HadronGasEos::net_strange_density(s.T, s.mub, s.mus, s.muq, true), st, 1e-9, 1e-9 * n) ||
        !near(HadronGasEos::net_charge_density(s.T, s.mub, s.mus, s.muq, true), q, 1e-9, 1e-9 * n))
      h::fail("net", "net densities are not sums over species");
    h::evaluated(h::current);
  }
}

SECTION(solve) {
  h::load_mid(false);
  HadronGasEos eos(false, false);
  if (eos.is_tabulated() || eos.account_for_resonance_widths()) h::fail("flags", "neither tabulated nor with widths");
  const int N = h::tier(60, 25);
  int zero = 0, bad = 0;
  for (int i = 0; i < N; i++) {
    State s{h::uni(rng, .07, .22), h::uni(rng, -.4, .6), h::uni(rng, -.1, .2), h::uni(rng, -.08, .08)};
    h::at("T=%.17g mub=%.17g mus=%.17g muq=%.17g", s.T, s.mub, s.mus, s.muq);
    const double e = HadronGasEos::energy_density(s.T, s.mub, s.mus, s.muq);
    const double nb = HadronGasEos::net_baryon_density(s.T, s.mub, s.mus, s.muq);
    const double ns = HadronGasEos::net_strange_density(s.T, s.mub, s.mus, s.muq);
    const double nq = HadronGasEos::net_charge_density(s.T, s.mub, s.mus, s.muq);
    const auto r = eos.solve_eos(e, nb, ns, nq);
    h::evaluated(h::current);
    if (r[0] == 0) {
      zero++;  // the search went to very low temperatures
      continue;
    }
    if (!near(r[0], s.T, 0, 1e-4) || !near(r[1], s.mub, 0, 2e-3) || !near(r[2], s.mus, 0, 2e-3) || !near(r[3], s.muq, 0, 2e-3)) {
      bad++;
      h::sample("state not found");
    }
  }
  h::count("solved", N - zero - bad);
  h::count("gave up as cold", zero);
  h::count("not found", bad);
  if (N - zero - bad < 0.8 * N) h::fail("solve", "of %d states only %d are found from their densities, %d others wrong", N, N - zero - bad, bad);
  for (int i = 0; i < N; i++) {
    const double T = h::uni(rng, .05, .2), mub = h::uni(rng, 0., .5), muq = h::uni(rng, -.02, .02);
    h::at("T=%.17g mub=%.17g muq=%.17g", T, mub, muq);
    double mus;
    try {
      mus = HadronGasEos::mus_net_strangeness0(T, mub, muq);
    } catch (const std::runtime_error &) {
      h::count("no strangeness neutrality");
      continue;
    }
    const double ns = HadronGasEos::net_strange_density(T, mub, mus, muq), n = HadronGasEos::density(T, mub, mus, muq);
    h::count("strangeness neutral");
    if (std::abs(ns) > 1e-6 * n + 2e-8) h::fail("neutral", "net strangeness density %.6g with mus=%.6g, density %.6g", ns, mus, n);
  }
}

SECTION(mass) {
  h::load_mid();
  const int N = h::tier(8000, 7);
  for (const char *name : {"ρ⁰", "Δ⁺", "N(1440)⁺", "K*(892)⁺", "σ", "f₂(1270)", "π⁺", "p"}) {
    const ParticleType *tp = nullptr;
    for (const auto &t : ParticleType::list_all())
      if (t.name() == name) tp = std::addressof(t);
    if (!tp) continue;
    const auto &t = *tp;
    const double T = h::uni(rng, 0.08, 0.2);
    h::at("%s at T=%.17g", name, T);
    if (t.is_stable()) {
      if (HadronGasEos::sample_mass_thermal(t, 1 / T) != t.mass()) h::fail("stable", "mass of a stable %s is not its pole mass", name);
      h::evaluated(h::current);
      continue;
    }
    const double lo = t.min_mass_spectral();
    h::Cdf c(lo, 5., [&](double m) -> double { return t.spectral_function(m) * m * m * std::cyl_bessel_k(2, m / T); }, 3000);
    std::vector<double> v;
    for (int i = 0; i < N; i++) {
      v.push_back(HadronGasEos::sample_mass_thermal(t, 1 / T));
      if (!(v.back() >= lo && v.back() <= 5)) {
        h::fail("range", "mass %.9g of %s is outside [%.9g, 5]", v.back(), name, lo);
        break;
      }
    }
    h::follows("mass", "thermal masses", v, c, 2e-3);
    h::evaluated(h::current);
  }
}

SECTION(quantum) {
  h::load_mid(false);
  const int N = h::tier(10, 10);
  for (int i = 0; i < N; i++) {
    const std::vector<const char *> which{"111", "211", "2212", "2112", "321", "3122", "2224", "-2212", "113"};
    const PdgCode pdg(std::string(h::pick(rng, which)));
    const auto &t = ParticleType::find(pdg);
    const double T = h::uni(rng, .06, .25), V = h::uni(rng, 100., 3000.), g = t.spin() + 1;
    const bool fermi = t.spin() % 2 == 1;
    // a density with at most moderate degeneracy
    const double mu = fermi ? t.mass() + h::uni(rng, -2.5 * T, std::min(1.5 * T, .3)) : t.mass() - h::uni(rng, .12 * T, 2.5 * T);
    const auto f = [&](double k, double m0) { return k * k / (std::exp((std::hypot(k, t.mass()) - m0) / T) + (fermi ? 1 : -1)); };
    const double top = 10;
    h::Cdf all(0, top, [&](double k) { return f(k, mu); });
    const double density = g / (2 * M_PI * M_PI) * all.total;  // GeV³
    const int mult = int(density / hc3 * V + .5);
    if (mult < 20) continue;
    const double n = mult * hc3 / V;
    h::at("%s, %d in %.17g fm³ at T=%.17g", t.name().c_str(), mult, V, T);
    ChemicalPotentialSolver solver;
    double got = 0;
    try {
      Quiet q;
      got = solver.effective_chemical_potential(g, t.mass(), n, T, fermi ? 1. : -1., 1e-8);
    } catch (const std::runtime_error &e) {
      h::count("refused");
      if (!fermi) continue;  // close to condensation
      h::fail("solver", "no chemical potential for a density of %.4g per fm³: %s", n / hc3, std::string(e.what()).substr(0, 60).c_str());
      continue;
    }
    h::Cdf found(0, top, [&](double k) { return f(k, got); });
    const double back = g / (2 * M_PI * M_PI) * found.total;
    if (!near(back, n, 1e-3, 3e-8))
      h::fail("potential", "density %.9g GeV³ at chemical potential %.9g, wanted %.9g", back, got, n);
    h::count(fermi ? "fermions" : "bosons");
    std::map<PdgCode, int> m;
    m[pdg] = mult;
    if (h::chance(rng, .5)) m[PdgCode(0x2112)] += fermi && pdg == PdgCode(0x2112) ? 0 : 30;
    try {
      Quiet q;
      QuantumSampling s(m, V, T);
      std::vector<double> v;
      for (int k = 0; k < h::tier(2500, 8); k++) v.push_back(s.sample(pdg));
      h::follows("sample", (t.name() + " momenta").c_str(), v, found, 2e-3);
    } catch (const std::runtime_error &) {
      h::count("refused");
    }
    h::evaluated(h::current);
  }
}

SECTION(table) {
  h::load_mid(false);
  Scratch dir;
  const int N = h::tier(2, 5);
  for (int i = 0; i < N; i++) {
    HadronGasEos eos(false, false);
    const double de = h::range(rng, 12, 30) * .01, db = h::range(rng, 30, 60) * .001, dq = h::range(rng, 30, 60) * .001;
    const size_t ne = 4 + size_t(h::below(rng, 2)), nb = 3 + size_t(h::below(rng, 2)), nq = 2 + size_t(h::below(rng, 2));
    h::at("de=%.17g db=%.17g dq=%.17g %zu×%zu×%zu", de, db, dq, ne, nb, nq);
    EosTable t(de, db, dq, ne, nb, nq);
    {
      Quiet q;
      t.compile_table(eos, "t.dat");
    }
    const auto verify = [&](const EosTable &tab, const char *how, double tol) {
      int good = 0, all = 0;
      // in the cells
      for (size_t a = 1; a + 1 < ne; a++)
        for (size_t b = 0; b + 1 < nb; b++)
          for (size_t c = 0; c + 1 < nq; c++) {
            EosTable::table_element x;
            tab.get(x, de * (double(a) + 1e-7), db * (double(b) + 1e-7), dq * (double(c) + 1e-7));
            all++;
            if (x.T <= 0) continue;
            const bool ok = near(HadronGasEos::energy_density(x.T, x.mub, x.mus, x.muq), de * double(a), 0, tol) &&
                            near(HadronGasEos::net_baryon_density(x.T, x.mub, x.mus, x.muq), db * double(b), 0, tol) &&
                            near(HadronGasEos::net_strange_density(x.T, x.mub, x.mus, x.muq), 0, 0, tol) &&
                            near(HadronGasEos::net_charge_density(x.T, x.mub, x.mus, x.muq), dq * double(c), 0, tol) &&
                            near(HadronGasEos::pressure(x.T, x.mub, x.mus, x.muq), x.p, 0, tol);
            good += ok;
          }
      h::count("nodes", all);
      if (good < 0.7 * all) h::fail("nodes", "%s: %d of %d entries have the densities they stand for", how, good, all);
    };
    verify(t, "compiled", 2e-5);
    // linear between neighbours: halfway along one axis is the mean of both ends
    for (int k = 0; k < 60; k++) {
      const size_t a = 1 + size_t(h::below(rng, int(ne) - 2)), b = size_t(h::below(rng, int(nb) - 1)), c = size_t(h::below(rng, int(nq) - 1));
      const double ax = h::uni(rng, 0., .99), bx = h::uni(rng, 0., .99), cx = h::uni(rng, 0., .99);
      const auto at = [&](double A, double B, double C) {
        EosTable::table_element x;
        t.get(x, de * (double(a) + A), db * (double(b) + B), dq * (double(c) + C));
        return x;
      };
      const double z = 1e-9, w = 1 - 1e-9;
      const int axis = int(h::below(rng, 3));
      EosTable::table_element l, r, m;
      double x;
      if (axis == 0) l = at(z, bx, cx), r = at(w, bx, cx), m = at(x = ax, bx, cx);
      else if (axis == 1) l = at(ax, z, cx), r = at(ax, w, cx), m = at(ax, x = bx, cx);
      else l = at(ax, bx, z), r = at(ax, bx, w), m = at(ax, bx, x = cx);
      const auto lin = [&](double p, double q2) { return p + (q2 - p) * x; };
      if (!near(m.T, lin(l.T, r.T), 1e-6, 1e-8) || !near(m.p, lin(l.p, r.p), 1e-6, 1e-8) || !near(m.mub, lin(l.mub, r.mub), 1e-6, 1e-7) ||
          !near(m.mus, lin(l.mus, r.mus), 1e-6, 1e-7) || !near(m.muq, lin(l.muq, r.muq), 1e-6, 1e-7))
        h::fail("linear", "lookup between entries along axis %d is not linear", axis);
      h::evaluated(h::current);
    }
    const auto outside = [&](double e, double b, double q) {
      EosTable::table_element x;
      t.get(x, e, b, q);
      if (x.p >= 0) h::fail("outside", "lookup at e=%.4g nb=%.4g nq=%.4g outside of the table gives p=%.4g", e, b, q, x.p);
    };
    outside(de * (double(ne) - .99), db / 2, dq / 2);
    outside(de * 1.5, db * (double(nb) - .99), dq / 2);
    outside(de * 1.5, db / 2, dq * (double(nq) - .99));
    outside(de * 50, db * 50, dq * 50);
    {
      // written and read again, also by a table with another size
      EosTable u(1, 1, 1, 2, 2, 2);
      {
        Quiet q;
        u.compile_table(eos, "t.dat");
      }
      verify(u, "read", 2e-5);
      for (int k = 0; k < 30; k++) {
        const double e = h::uni(rng, de, de * double(ne - 1)), b = h::uni(rng, 0., db * double(nb - 1)), q = h::uni(rng, 0., dq * double(nq - 1));
        EosTable::table_element x, y;
        t.get(x, e, b, q);
        u.get(y, e, b, q);
        if (!near(x.T, y.T, 0, 2e-6) || !near(x.p, y.p, 0, 2e-6) || !near(x.mub, y.mub, 0, 2e-6) || !near(x.mus, y.mus, 0, 2e-6) ||
            !near(x.muq, y.muq, 0, 2e-6))
          h::fail("reread", "the table differs after it was written and read");
      }
      h::count("read again");
    }
    {
      // a file that does not fit the particles is not used
      const std::string text = h::slurp("t.dat");
      std::istringstream in(text);
      std::ostringstream out;
      double v[5];
      double d[3];
      size_t n3[3];
      in >> d[0] >> d[1] >> d[2] >> n3[0] >> n3[1] >> n3[2];
      out.precision(9);
      out << d[0] << " " << d[1] << " " << d[2] << "\n" << n3[0] << " " << n3[1] << " " << n3[2] << "\n";
      const int field = int(h::below(rng, 5));
      while (in >> v[0] >> v[1] >> v[2] >> v[3] >> v[4]) {
        if (v[1] > 0) v[field] += field == 0 ? .05 : field == 1 ? .02 : .15;
        for (double w : v) out << w << " ";
        out << "\n";
      }
      std::ofstream("t.dat") << out.str();
      EosTable u(de, db, dq, ne, nb, nq);
      {
        Quiet q;
        u.compile_table(eos, "t.dat");
      }
      verify(u, "inconsistent file", 2e-5);
      h::count("files that do not fit");
    }
    std::filesystem::remove("t.dat");
  }
}

SECTION(node) {
  h::load_mid(false);
  HadronGasEos eos(false, false);
  const int N = h::tier(60, 13);
  int bad = 0, cold = 0;
  for (int i = 0; i < N; i++) {
    const State s{h::uni(rng, .1, .2), h::uni(rng, -.3, .5), h::uni(rng, -.05, .15), h::uni(rng, -.08, .08)};
    const double b = i % 5 == 0 ? 0 : h::uni(rng, 0., .9), cz = h::uni(rng, -1., 1.), ph = h::uni(rng, 0., 2 * M_PI), sz = std::sqrt(1 - cz * cz);
    const ThreeVector v(b * sz * std::cos(ph), b * sz * std::sin(ph), b * cz);
    h::at("T=%.17g mub=%.17g mus=%.17g muq=%.17g v=%.17g,%.17g,%.17g", s.T, s.mub, s.mus, s.muq, v.x1(), v.x2(), v.x3());
    ThermLatticeNode want;
    want.set_rest_frame_quantities(s.T, s.mub, s.mus, s.muq, v);
    const double e = HadronGasEos::energy_density(s.T, s.mub, s.mus, s.muq), p = HadronGasEos::pressure(s.T, s.mub, s.mus, s.muq);
    const double nb = HadronGasEos::net_baryon_density(s.T, s.mub, s.mus, s.muq), ns = HadronGasEos::net_strange_density(s.T, s.mub, s.mus, s.muq),
                 nq = HadronGasEos::net_charge_density(s.T, s.mub, s.mus, s.muq);
    if (want.e() != e || want.p() != p || want.nb() != nb || want.ns() != ns || want.nq() != nq || want.T() != s.T || want.mub() != s.mub ||
        want.mus() != s.mus || want.muq() != s.muq || (want.v() - v).abs() > 0)
      h::fail("set", "quantities set are not those of the equation of state");
    // what particles in a cell of this fluid add up to
    const double g2 = 1 / (1 - b * b), g = std::sqrt(g2);
    const FourVector T0((e + p) * g2 - p, v * ((e + p) * g2));
    ThermLatticeNode node;
    double B = nb * g, S = ns * g, Q = nq * g;
    // protons, K⁺ and π⁺ (with weights, also negative ones) for the charges, and the momentum is put on a neutral particle
    const auto add = [&](const char *pdg, double w, const FourVector &mom) {
      ParticleData d(ParticleType::find(PdgCode(std::string(pdg))));
      d.set_4momentum(mom);
      node.add_particle(d, w);
    };
    FourVector rest = T0;
    const auto charge = [&](const char *pdg, double w) {
      if (w == 0) return;
      const FourVector mom = T0 * (.1 / std::abs(w));
      rest -= mom * w;
      add(pdg, w, mom);
    };
    charge("2112", B);
    charge("311", S);
    charge("211", Q);
    add("111", 1, rest);
    if ((node.Tmu0() - T0).abs3() > 1e-9 || std::abs(node.Tmu0().x0() - T0.x0()) > 1e-9 || !near(node.nb(), B, 1e-12, 1e-12) ||
        !near(node.ns(), S, 1e-12, 1e-12) || !near(node.nq(), Q, 1e-12, 1e-12))
      h::fail("add", "particles in a cell do not add up: %.6g %.6g %.6g, wanted %.6g %.6g %.6g", node.nb(), node.ns(), node.nq(), B, S, Q);
    {
      Quiet q;
      node.compute_rest_frame_quantities(eos);
    }
    h::evaluated(h::current);
    if (node.T() == 0) {
      cold++;
      continue;
    }
    const double ev = 2e-3 + 2e-3 * e;
    const bool fine = std::abs(node.e() - e) < ev * g2 && (node.v() - v).abs() < 3e-3 && std::abs(node.T() - s.T) < 3e-3 && std::abs(node.p() - p) < ev * g &&
                      std::abs(node.mub() - s.mub) < .03 && std::abs(node.mus() - s.mus) < .03 && std::abs(node.muq() - s.muq) < .03;
    if (!fine) {
      bad++;
      if (bad <= 3)
        h::sample("got T=%.4g mub=%.4g mus=%.4g muq=%.4g v=%.4g e=%.4g for T=%.4g mub=%.4g mus=%.4g muq=%.4g v=%.4g e=%.4g", node.T(), node.mub(), node.mus(),
                  node.muq(), node.v().abs(), node.e(), s.T, s.mub, s.mus, s.muq, b, e);
    }
  }
  h::count("nodes", N);
  h::count("gave up as cold", cold);
  h::count("not recovered", bad);
  if (bad > .08 * N) h::fail("recover", "of %d moving cells %d are not brought to their rest frame and %d are given up", N, bad, cold);
  if (cold > .2 * N) h::fail("cold", "of %d moving cells %d are given up", N, cold);
}

namespace {
struct Bath {
  GrandCanThermalizer therm;
  Bath(std::array<double, 3> size, std::array<int, 3> n, std::array<double, 3> origin, double ecrit, ThermalizationAlgorithm a, bool micro, double t0 = 0, double dt = 1)
      : therm(size, n, origin, false, ecrit, t0, dt, a, micro) {}
};
ParticleData thermal(h::Rng &rng, const ParticleType &t, double T, const ThreeVector &v, const FourVector &x) {
  ParticleData d(t);
  const double k = sample_momenta_from_thermal(T, t.mass());
  const double cz = h::uni(rng, -1., 1.), ph = h::uni(rng, 0., 2 * M_PI), sz = std::sqrt(1 - cz * cz);
  d.set_4momentum(t.mass(), ThreeVector(k * sz * std::cos(ph), k * sz * std::sin(ph), k * cz));
  d.boost_momentum(-v);
  d.set_4position(x);
  return d;
}
const ThermalizationAlgorithm algos[] = {ThermalizationAlgorithm::BiasedBF, ThermalizationAlgorithm::UnbiasedBF, ThermalizationAlgorithm::ModeSampling};
}  // namespace

SECTION(thermalize) {
  h::load_mid(false);
  Scratch dir;
  const int N = h::tier(24, 12);
  for (int i = 0; i < N; i++) {
    const double L = h::uni(rng, 4., 8.), ecrit = h::uni(rng, .1, .3), time = h::uni(rng, 1., 50.);
    const std::array<double, 3> origin{h::uni(rng, -10., 5.), h::uni(rng, -10., 5.), h::uni(rng, -10., 5.)};
    const auto algo = algos[i % 3];
    const int ncell = 2 + int(h::below(rng, 2));
    Quiet quiet;
    Bath b({L, L, L}, {ncell, ncell, ncell}, origin, ecrit, algo, false);
    auto &lat = b.therm.lattice();
    std::vector<bool> hot(lat.size());
    double expected = 0;
    const double vol = std::pow(L / ncell, 3);
    for (size_t c = 0; c < lat.size(); c++) {
      hot[c] = h::chance(rng, .4) || (c == 3);
      const double T = hot[c] ? h::uni(rng, .17, .2) : .04;
      const double v = h::uni(rng, -.5, .5);
      lat[c].set_rest_frame_quantities(T, hot[c] ? h::uni(rng, 0., .3) : 0., 0., 0., ThreeVector(v, 0., v / 2));
      hot[c] = lat[c].e() > ecrit;
      if (hot[c]) expected += lat[c].e() * vol;
    }
    Particles parts;
    const bool few = i % 8 == 7;
    int want = 0;
    double E = 0;
    const double target = few ? 1e9 : std::max(40., expected);
    const int max = few ? 25 + int(h::below(rng, 5)) : 4000;
    QuantumNumbers q;
    std::vector<std::string> removed;
    // as many particles as the hot cells have energy for; the others elsewhere
    for (int tries = 0; tries < 30000 && E < target && want < max; tries++) {
      const FourVector x(time, origin[0] + h::uni(rng, -.2, 1.2) * L, origin[1] + h::uni(rng, -.2, 1.2) * L, origin[2] + h::uni(rng, -.2, 1.2) * L);
      const std::vector<const char *> which{"211", "-211", "111", "2212", "2112", "321", "-321", "311", "-311", "3122", "113", "-2212"};
      const auto &t = ParticleType::find(PdgCode(std::string(h::pick(rng, which))));
      ParticleData d = thermal(rng, t, .16, ThreeVector(), x);
      int cell = -1;
      bool on = true;
      int ix[3];
      for (int k = 0; k < 3; k++) {
        const double r = (x.threevec()[size_t(k)] - origin[size_t(k)]) / L * ncell;
        ix[k] = int(std::floor(r));
        if (ix[k] < 0 || ix[k] >= ncell) on = false;
      }
      if (on) cell = ix[0] + ncell * (ix[1] + ncell * ix[2]);
      const bool in = on && hot[size_t(cell)];
      if (!in && h::chance(rng, .8)) continue;
      parts.insert(d);
      if (in) {
        want++;
        E += d.momentum().x0();
        q.add_values(d);
      }
    }
    h::at("algorithm %d, %d particles of %zu in hot cells", int(algo), want, parts.size());
    b.therm.thermalize(parts, time, 1);
    const auto out = b.therm.particles_to_remove();
    const auto in = b.therm.particles_to_insert();
    h::evaluated(h::current);
    if (want <= 30) {
      h::count("too few");
      if (!out.empty() || !in.empty()) h::fail("few", "%zu of %d particles replaced, though there are few", out.size(), want);
      continue;
    }
    h::count("thermalizations");
    h::count("particles", (long long)in.size());
    if (int(out.size()) != want) h::fail("removed", "%zu particles removed, %d are in hot cells", out.size(), want);
    for (const auto &d : out)
      if (!parts.is_valid(d)) h::fail("removed", "removed particle is not a current one");
    const QuantumNumbers a(in), z(out);
    if (a.baryon_number() != z.baryon_number() || a.strangeness() != z.strangeness() || a.charge() != z.charge())
      h::fail("conserve", "B S Q %d %d %d became %d %d %d", z.baryon_number(), z.strangeness(), z.charge(), a.baryon_number(), a.strangeness(), a.charge());
    const FourVector dp = a.momentum() - z.momentum();
    if (!(std::abs(dp.x0()) < 1e-4 && dp.threevec().abs() < 1e-4))
      h::fail("momentum", "energy and momentum change by %.6g %.6g %.6g %.6g", dp.x0(), dp.x1(), dp.x2(), dp.x3());
    for (const auto &d : in) {
      const auto x = d.position();
      bool ok = x.x0() == time;
      size_t cell = 0, f = 1;
      for (int k = 0; k < 3; k++) {
        const double r = (x.threevec()[size_t(k)] - origin[size_t(k)]) / L * ncell;
        const int c = int(std::floor(r));
        if (r < -1e-9 || r > ncell + 1e-9) ok = false;
        cell += f * size_t(std::min(std::max(c, 0), ncell - 1));
        f *= size_t(ncell);
      }
      if (!ok || !hot[cell]) h::fail("where", "new particle at t=%.9g (thermalized at %.9g) in a cell that is %s", x.x0(), time, hot[cell] ? "hot" : "not hot");
      if (d.formation_time() != time) h::fail("formed", "formation time %.9g instead of %.9g", d.formation_time(), time);
      if (std::abs(d.effective_mass() - d.pole_mass()) > 1e-5) h::fail("shell", "mass %.9g of %s", d.effective_mass(), d.type().name().c_str());
      if (!HadronGasEos::is_eos_particle(d.type())) h::fail("kind", "%s sampled", d.type().name().c_str());
    }
    ThermalizationAction act(b.therm, time);
    if (!act.any_particles_thermalized() || act.incoming_particles().size() != out.size() || act.outgoing_particles().size() != in.size() ||
        act.time_of_execution() != time)
      h::fail("action", "action does not stand for what was thermalized");
  }
}

SECTION(share) {
  // how species and momenta are distributed over the cells
  h::load_mid(false);
  Scratch dir;
  const int N = h::tier(4, 6);
  for (int i = 0; i < N; i++) {
    const auto algo = i % 2 ? ThermalizationAlgorithm::BiasedBF : ThermalizationAlgorithm::ModeSampling;
    const double L = h::uni(rng, 5., 6.), time = 3, ecrit = .1;
    Quiet quiet;
    Bath b({2 * L, L, L}, {2, 1, 1}, {-L, -L / 2, -L / 2}, ecrit, algo, false);
    auto &lat = b.therm.lattice();
    const State s[2] = {{h::uni(rng, .15, .17), h::uni(rng, 0., .2), 0, 0}, {h::uni(rng, .18, .2), h::uni(rng, 0., .2), 0, 0}};
    const double v = h::uni(rng, .45, .7);
    const ThreeVector u[2] = {ThreeVector(0, v, 0), ThreeVector(0, 0, -v)};
    h::at("algorithm %d T=%.17g,%.17g mub=%.17g,%.17g v=%.17g", int(algo), s[0].T, s[1].T, s[0].mub, s[1].mub, v);
    Particles parts;
    const double g = 1 / std::sqrt(1 - v * v);
    for (int c = 0; c < 2; c++) {
      lat[size_t(c)].set_rest_frame_quantities(s[c].T, s[c].mub, 0, 0, u[c]);
      for (const auto &t : ParticleType::list_all()) {
        if (!hadron_of_gas(t)) continue;
        const double n = HadronGasEos::partial_density(t, s[c].T, s[c].mub, 0, 0) * g * L * L * L;
        const int k = int(n) + (h::chance(rng, n - std::floor(n)) ? 1 : 0);
        for (int j = 0; j < k; j++)
          parts.insert(thermal(rng, t, s[c].T, u[c], FourVector(time, c ? L / 2 : -L / 2, 0, 0)));
      }
    }
    // neutral non-strange mesons are drawn last and kept as they are; their kinds and cells follow the thermal densities
    std::map<std::pair<std::string, int>, double> expect;
    double total = 0;
    for (const auto &t : ParticleType::list_all()) {
      if (!hadron_of_gas(t) || t.baryon_number() || t.strangeness() || t.charge()) continue;
      for (int c = 0; c < 2; c++) total += expect[{t.name(), c}] = HadronGasEos::partial_density(t, s[c].T, s[c].mub, 0, 0);
    }
    std::map<std::pair<std::string, int>, double> seen;
    double n = 0, py[2] = {0, 0}, pz[2] = {0, 0}, en[2] = {0, 0};
    std::vector<double> xs[3];
    const int R = h::tier(40, 3);
    for (int r = 0; r < R; r++) {
      b.therm.thermalize(parts, time, 1);
      for (const auto &d : b.therm.particles_to_insert()) {
        const int c = d.position().x1() > 0;
        py[c] += d.momentum().x2();
        pz[c] += d.momentum().x3();
        en[c] += d.momentum().x0();
        xs[0].push_back(d.position().x1() / L - (c ? 0 : -1));
        xs[1].push_back(d.position().x2() / L + .5);
        xs[2].push_back(d.position().x3() / L + .5);
        const auto &t = d.type();
        if (t.baryon_number() || t.strangeness() || t.charge()) continue;
        seen[{t.name(), c}]++;
        n++;
      }
    }
    h::count("neutral mesons", (long long)n);
    if (n < 100) h::fail("few", "only %.0f neutral mesons in %d thermalizations", n, R);
    for (const auto &kv : expect) {
      const double m = n * kv.second / total, k = seen.count(kv.first) ? seen[kv.first] : 0;
      if (std::abs(k - m) > 5.5 * std::sqrt(m + 1) + .01 * m)
        h::fail("share", "%.0f %s in cell %d, expected %.1f of %.0f", k, kv.first.first.c_str(), kv.first.second, m, n);
    }
    for (int a = 0; a < 3; a++) h::follows("uniform", "positions in cells", xs[a], h::flat(0, 1), 1e-3);
    // the cells flow
    const double vy = py[0] / en[0], wz = pz[1] / en[1];
    if (!(vy > .25 * v && wz < -.25 * v && std::abs(pz[0] / en[0]) < .3 && std::abs(py[1] / en[1]) < .3))
      h::fail("flow", "mean velocities %.3f (y) and %.3f (z) in cells that move with %.3f and %.3f", vy, wz, v, -v);
    h::evaluated(h::current);
  }
}

SECTION(lattice) {
  // from particles to cells, and when
  h::load_mid(false);
  Scratch dir;
  Quiet quiet;
  const int N = h::tier(4, 10);
  for (int i = 0; i < N; i++) {
    const double L = h::uni(rng, 8., 10.), ecrit = h::uni(rng, .08, .2);
    Bath b({L, L, L}, {4, 4, 4}, {-L / 2, -L / 2, -L / 2}, ecrit, ThermalizationAlgorithm::BiasedBF, false);
    const int ens = 1 + int(h::below(rng, 2)), test = 1 + int(h::below(rng, 2));
    std::vector<Particles> parts(static_cast<size_t>(ens));
    for (auto &p : parts)
      for (int k = 0; k < 200 * test; k++) {
        const std::vector<const char *> which{"211", "-211", "111", "2212", "2112", "321", "-321"};
        const auto &t = ParticleType::find(PdgCode(std::string(h::pick(rng, which))));
        const double r = h::uni(rng, 0., .35 * L), cz = h::uni(rng, -1., 1.), ph = h::uni(rng, 0., 6.28), sz = std::sqrt(1 - cz * cz);
        const ThreeVector x(r * sz * std::cos(ph), r * sz * std::sin(ph), r * cz);
        p.insert(thermal(rng, t, .15, x * (.5 / L), FourVector(1., x)));
      }
    const auto ep = h::params(test, .1, 0., 300., 1., 3., ens);
    const DensityParameters par(ep);
    h::at("ensembles %d testparticles %d", ens, test);
    b.therm.update_thermalizer_lattice(parts, par);
    // energies of all cells against the sum over particles
    auto &lat = b.therm.lattice();
    for (size_t c = 0; c < lat.size(); c++) {
      const auto &n = lat[c];
      const auto x = lat.cell_center(int(c));
      FourVector T;
      double B = 0, Q = 0, S = 0;
      for (const auto &p : parts)
        for (const auto &d : p) {
          const auto f = unnormalized_smearing_factor(x - d.position().threevec(), d.momentum(), 1 / d.momentum().abs(), par);
          const double w = f.first * par.norm_factor_sf();
          T += d.momentum() * w;
          B += w * d.type().baryon_number();
          Q += w * d.type().charge();
          S += w * d.type().strangeness();
        }
      const double size = T.x0() + std::abs(T.x1()) + std::abs(T.x2()) + std::abs(T.x3());
      if (std::abs(size - ecrit) < 1e-3) continue;
      const bool above = size >= ecrit;
      h::count(above ? "cells above" : "cells below");
      if (!above) {
        if (n.e() != 0 || n.Tmu0().x0() != 0 || n.T() != 0) h::fail("below", "cell below the threshold keeps e=%.5g", n.e());
        continue;
      }
      if (!near(n.Tmu0().x0(), T.x0(), 1e-2, 1e-3) || !near(n.nb(), B, 1e-2, 1e-3) || !near(n.nq(), Q, 1e-2, 1e-3) || !near(n.ns(), S, 1e-2, 1e-3) ||
          (n.Tmu0() - T).threevec().abs() > 1e-2 * T.x0())
        h::fail("cell", "T00 %.6g B %.6g S %.6g Q %.6g, sum over particles %.6g %.6g %.6g %.6g", n.Tmu0().x0(), n.nb(), n.ns(), n.nq(), T.x0(), B, S, Q);
      if (n.e() > n.Tmu0().x0() * (1 + 1e-9) || n.e() < n.Tmu0().abs() * .5) h::fail("rest", "energy density %.6g at rest, %.6g moving", n.e(), n.Tmu0().x0());
      if (n.T() > 0) {
        // T^{μ0} = (e+p) u^μ u^0 - p g^{μ0}
        const double g2 = 1 / (1 - n.v().sqr());
        const double t00 = (n.e() + n.p()) * g2 - n.p();
        if (!near(t00, n.Tmu0().x0(), 2e-2, 3e-3) || (n.v() * ((n.e() + n.p()) * g2) - n.Tmu0().threevec()).abs() > 2e-2 * t00 + 3e-3)
          h::fail("ideal", "T00 %.6g of the fluid, %.6g of the particles", t00, n.Tmu0().x0());
      }
    }
    // again with the same particles: nothing accumulates
    const auto before = lat[lat.size() / 2].Tmu0();
    b.therm.update_thermalizer_lattice(parts, par);
    const auto after = lat[lat.size() / 2].Tmu0();
    if ((before - after).abs3() > 1e-12 || std::abs(before.x0() - after.x0()) > 1e-12) h::fail("again", "second update changes T00 %.9g to %.9g", before.x0(), after.x0());
    h::evaluated(h::current);
  }
  for (int i = 0; i < h::tier(200, 20); i++) {
    const double t0 = h::uni(rng, -5., 20.), dt = h::uni(rng, .02, .5), period = dt * h::uni(rng, 1.05, 30.), start = h::uni(rng, -6., 10.);
    Bath b({2, 2, 2}, {1, 1, 1}, {0, 0, 0}, .1, ThermalizationAlgorithm::BiasedBF, false, t0, period);
    std::unique_ptr<Clock> clock = std::make_unique<UniformClock>(start, dt, start + 1000 * dt);
    h::at("start %.17g period %.17g clock from %.17g step %.17g", t0, period, start, dt);
    const double step = clock->timestep_duration();
    for (int k = 0; k < 200; k++, ++*clock) {
      const double t = clock->current_time();
      if (b.therm.is_time_to_thermalize(clock)) {
        h::count("times");
        if (t <= t0) h::fail("early", "thermalizes at %.9g, before %.9g", t, t0);
      }
      // due: the first step after t0 + n period
      const double ph = std::fmod(t - t0, period);
      if (t <= t0 || std::abs(ph) < 1e-6 || std::abs(ph - period) < 1e-6 || std::abs(ph - step) < 1e-6) continue;
      if (b.therm.is_time_to_thermalize(clock) != (ph < step))
        h::fail("due", "%s at %.9g, %.6g after the last time that is due, with steps of %.6g", ph < step ? "not thermalized" : "thermalized", t, ph, step);
    }
    h::evaluated(h::current);
  }
}
HARNESS_MAIN
