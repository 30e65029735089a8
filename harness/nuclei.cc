// Nuclei and the set-up of collisions.
#include <filesystem>
#include <fstream>

#include "h.h"
#include "params.h"
#include "smash/alphaclusterednucleus.h"
#include "smash/collidermodus.h"
#include "smash/configuration.h"
#include "smash/constants.h"
#include "smash/customnucleus.h"
#include "smash/deformednucleus.h"
#include "smash/nucleus.h"
#include "smash/particles.h"
#include "smashenv.h"
#include "stat.h"

using namespace smash;

namespace {
std::string str(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string str(const char *fmt, ...) {
  char b[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}
using List = std::map<PdgCode, int>;
const PdgCode P = 0x2212, N = 0x2112;
List nucleus(int z, int n) {
  List l;
  if (z) l[P] = z;
  if (n) l[N] = n;
  return l;
}
std::string text(const List &l) {
  std::string s;
  for (auto &x : l) s += str("%s%s: %d", s.empty() ? "" : ", ", x.first.string().c_str(), x.second);
  return "{" + s + "}";
}
double ws(double r, double R, double d) { return 1 / (std::exp((r - R) / d) + 1); }
ThreeVector dir_check(const std::vector<ThreeVector> &v, const char *what) {
  std::vector<double> c, f;
  ThreeVector sum(0, 0, 0);
  for (auto &x : v) {
    if (x.abs() == 0) continue;
    c.push_back(x.x3() / x.abs()), f.push_back(std::atan2(x.x2(), x.x1()));
    sum += x;
  }
  if (!c.empty()) {
    h::follows("isotropy", (std::string(what) + " cos(theta)").c_str(), c, h::flat(-1, 1));
    h::follows("isotropy", (std::string(what) + " phi").c_str(), f, h::flat(-M_PI, M_PI));
  }
  return sum;
}
Configuration side(bool projectile, const std::string &body) { return Configuration(("Modi: {Collider: {" + std::string(projectile ? "Projectile" : "Target") + ": {" + body + "}}}").c_str()); }
/// rotation as documented: about z by phi, about the rotated x by theta, about the rotated z by psi
ThreeVector rot(const ThreeVector &v, double phi, double theta, double psi) {
  auto about = [](const ThreeVector &axis, double a, const ThreeVector &w) {
    const double c = std::cos(a), s = std::sin(a);
    return w * c + axis.cross_product(w) * s + axis * ((axis * w) * (1 - c));
  };
  ThreeVector x(1, 0, 0), z(0, 0, 1), w = v;
  x = about(z, phi, x), w = about(z, phi, w);
  w = about(x, theta, w), z = about(x, theta, z);
  return about(z, psi, w);
}
double inv(double x) { return x * x; }
struct Nuclei {  // a kind of nucleus with its number and parameters
  int z, n;
  double r, d;
};
const Nuclei known[] = {{92, 146, 6.86, .556}, {82, 126, 6.67, .54}, {79, 118, 6.55, .523}, {54, 75, 5.36, .59}, {29, 34, 4.20641, .5977}, {40, 56, 5.02, .46}, {44, 52, 5.085, .46}};
}  // namespace

SECTION(parameters) {  // default radius, diffusiveness and saturation density
  h::load_full(false);
  for (int A = 2; A <= 250; A++) {
    const int z = std::max(1, std::min(A - 1, h::chance(rng, .5) ? A * 2 / 5 : h::below(rng, A + 1)));
    bool special = false;
    for (auto &k : known) special |= k.z == z && k.z + k.n == A;
    if (special) continue;
    h::at("A %d Z %d", A, z);
    const int t = A > 60 ? 1 : h::range(rng, 1, 5);
    Nucleus n(nucleus(z, A - z), t);
    const double R = A <= 16 ? 1.2 * std::cbrt(A) : 1.12 * std::cbrt(A) - .86 / std::cbrt(A), d = A <= 16 ? .545 : .54;
    if (!h::close(n.get_nuclear_radius(), R, 1e-9)) h::fail("radius", "radius %g, should be %g", n.get_nuclear_radius(), R);
    if (!h::close(n.get_diffusiveness(), d, 1e-9)) h::fail("diffusiveness", "%g, should be %g", n.get_diffusiveness(), d);
    if (int(n.number_of_particles()) != A || int(n.size()) != A * t || int(n.number_of_protons()) != z) h::fail("number", "%zu nucleons, %zu protons, %zu test particles of %d", n.number_of_particles(), n.number_of_protons(), n.size(), t);
    const double all = h::Cdf(0, R + 30 * d, [&](double r) { return 4 * M_PI * r * r * ws(r, R, d); }, 4000).total;
    if (!h::close(n.get_saturation_density() * all, A, 2e-3)) h::fail("saturation", "the density integrates to %g", n.get_saturation_density() * all);
    if (!h::close(n.nucleon_density(R, .3, .2), n.get_saturation_density() / 2, 1e-9)) h::fail("density", "density at the radius");
    h::evaluated(h::current);
  }
  for (auto &k : known) {
    h::at("Z %d N %d", k.z, k.n);
    Nucleus n(nucleus(k.z, k.n), 1);
    if (n.get_nuclear_radius() != k.r || n.get_diffusiveness() != k.d) h::fail("known", "radius %g, diffusiveness %g, should be %g, %g", n.get_nuclear_radius(), n.get_diffusiveness(), k.r, k.d);
    const double all = h::Cdf(0, k.r + 30 * k.d, [&](double r) { return 4 * M_PI * r * r * ws(r, k.r, k.d); }, 4000).total;
    if (!h::close(n.get_saturation_density() * all, k.z + k.n, 2e-3)) h::fail("saturation", "the density integrates to %g", n.get_saturation_density() * all);
    h::evaluated(h::current);
  }
  // given by hand, all or none
  for (int i = 0; i < 60; i++) {
    const bool pr = h::chance(rng, .5);
    const double R = h::uni(rng, 2, 8), d = h::uni(rng, .3, .7), s = h::uni(rng, .1, .2);
    const int which = h::below(rng, 8);
    h::at("%s given %d", pr ? "projectile" : "target", which);
    auto c = side(pr, "Particles: {2212: 20, 2112: 20}" + (which & 1 ? str(", Radius: %.17g", R) : "") + (which & 2 ? str(", Diffusiveness: %.17g", d) : "") + (which & 4 ? str(", Saturation_Density: %.17g", s) : ""));
    bool thrown = false;
    try {
      Nucleus n(c, 1);
      if (which == 7 && (n.get_nuclear_radius() != R || n.get_diffusiveness() != d || n.get_saturation_density() != s)) h::fail("given", "%g %g %g", n.get_nuclear_radius(), n.get_diffusiveness(), n.get_saturation_density());
      if (which == 0 && !h::close(n.get_nuclear_radius(), 1.12 * std::cbrt(40) - .86 / std::cbrt(40), 1e-9)) h::fail("given", "default radius %g", n.get_nuclear_radius());
    } catch (const std::invalid_argument &) {
      thrown = true;
    }
    c.clear();
    if (thrown != (which != 0 && which != 7)) h::fail("partial", thrown ? "refused" : "parameters in part were accepted");
    h::evaluated(h::current);
  }
}

SECTION(shape) {  // positions follow the Woods-Saxon distribution
  h::load_full(false);
  for (int i = 0; i < h::tier(16); i++) {
    random::set_seed(int64_t(rng()));
    Nucleus n(nucleus(20, 20), 1);
    const int kind = i % 8;
    const double R = kind == 7 ? 0 : h::uni(rng, kind == 5 ? .3 : 1.5, 8), d = kind == 6 ? 0 : h::uni(rng, .2, .8);
    n.set_nuclear_radius(R), n.set_diffusiveness(d);
    h::at("Woods-Saxon radius %g diffusiveness %g", R, d);
    std::vector<ThreeVector> v;
    std::vector<double> r;
    const int M = 60000;
    for (int k = 0; k < M; k++) {
      v.push_back(n.distribute_nucleon());
      r.push_back(v.back().abs());
      const double w = n.woods_saxon(r.back());
      if (d > 0 && k < 50 && !h::close(w, inv(r.back()) * ws(r.back(), R, d), 1e-9)) h::fail("woods_saxon", "%g at %g", w, r.back());
    }
    if (R == 0) {
      for (double x : r)
        if (x != 0) h::fail("point", "a nucleon at %g", x);
    } else {
      dir_check(v, "direction");
      if (d == 0) h::follows("sphere", "hard sphere", r, [&](double x) { return std::min(1., x * x * x / R / R / R); });
      else h::follows("radial", "radius", r, h::Cdf(0, R + 40 * d, [&](double x) { return x * x * ws(x, R, d); }));
    }
    h::evaluated(h::current);
  }
}

SECTION(arrange) {  // what arranging, shifting, boosting and copying do
  h::load_full(false);
  for (int i = 0; i < h::tier(120); i++) {
    random::set_seed(int64_t(rng()));
    List l;
    for (auto &x : {std::pair<PdgCode, int>{P, h::below(rng, 40)}, {N, h::below(rng, 40)}, {PdgCode("3122"), h::chance(rng, .3)}, {PdgCode("-2212"), h::chance(rng, .1) * 3}, {PdgCode("211"), h::chance(rng, .1)}})
      if (x.second) l[x.first] = x.second;
    if (l.empty()) l[P] = 1;
    const int t = h::range(rng, 1, 6);
    h::at("%s, %d test particles", text(l).c_str(), t);
    Nucleus n(l, t);
    const BelongsTo label = h::chance(rng, .5) ? BelongsTo::Projectile : BelongsTo::Target;
    n.set_label(label);
    double mass = 0;
    int all = 0;
    for (auto &x : l) mass += x.second * ParticleType::find(x.first).mass(), all += x.second;
    if (!h::close(n.mass(), mass, 1e-9)) h::fail("mass", "%g, should be %g", n.mass(), mass);
    n.arrange_nucleons();
    List got;
    FourVector c;
    for (auto &p : n) {
      got[p.pdgcode()]++;
      c += p.position();
      if (p.position().x0() != 0 || p.momentum().threevec().abs() != 0 || !h::close(p.momentum().x0(), p.pole_mass(), 1e-12)) h::fail("rest", "%s not at rest at time zero", p.type().name().c_str());
    }
    for (auto &x : l) x.second *= t;
    if (got != l) h::fail("species", "got %s", text(got).c_str());
    if (c.threevec().abs() > 1e-8) h::fail("centre", "centre at %g from the origin", c.threevec().abs());
    if (h::chance(rng, .7)) n.generate_fermi_momenta();
    std::vector<ParticleData> before(n.cbegin(), n.cend());
    const double v = h::chance(rng, .2) ? 0 : h::uni(rng, -.999, .999);
    n.boost(v);
    const double g = 1 / std::sqrt(1 - v * v), dz = h::uni(rng, -20, 20), dx = h::uni(rng, -9, 9), time = h::uni(rng, -30, 5);
    n.shift(dz, dx, time);
    Particles ps;
    n.copy_particles(&ps);
    if (ps.size() != before.size()) h::fail("copy", "%zu of %zu copied", ps.size(), before.size());
    size_t k = 0;
    for (auto &p : ps) {
      const auto &b = before[k++];
      const auto m = b.momentum().threevec();
      const double e = std::sqrt(inv(b.pole_mass()) + m.sqr());
      const FourVector want(g * (e + v * m.x3()), m.x1(), m.x2(), g * (m.x3() + v * e));
      if (p.pdgcode() != b.pdgcode() || p.belongs_to() != label) h::fail("identity", "%s became %s, belongs to %d", b.type().name().c_str(), p.type().name().c_str(), int(p.belongs_to()));
      for (int j = 0; j < 4; j++)
        if (!h::close(p.momentum()[j], want[j], 1e-9, 1e-9 * g)) h::fail("boost", "component %d of the momentum is %.10g, should be %.10g", j, p.momentum()[j], want[j]);
      const ThreeVector x = b.position().threevec(), y = p.position().threevec();
      if (!h::close(y.x1(), x.x1() + dx, 1e-9, 1e-9) || !h::close(y.x2(), x.x2(), 1e-9, 1e-9) || !h::close(y.x3(), x.x3() / g + dz, 1e-9, 1e-9)) h::fail("place", "(%g %g %g) came to (%g %g %g)", x.x1(), x.x2(), x.x3(), y.x1(), y.x2(), y.x3());
      if (p.position().x0() != time || p.formation_time() != time) h::fail("time", "time %g, formation time %g, should be %g", p.position().x0(), p.formation_time(), time);
    }
    h::evaluated(h::current);
  }
}

SECTION(fermi) {  // Fermi momenta
  h::load_full(false);
  for (int i = 0; i < h::tier(24); i++) {
    random::set_seed(int64_t(rng()));
    const int z = h::range(rng, 1, 90), n = h::range(rng, 1, 120), t = 30000 / (z + n);
    List l = nucleus(z, n);
    const bool lambda = h::chance(rng, .3);
    if (lambda) l[PdgCode("3122")] = 2;
    Nucleus nu(l, t);
    h::at("%s, %d test particles", text(l).c_str(), t);
    nu.arrange_nucleons();
    nu.generate_fermi_momenta();
    std::vector<double> u[2];
    std::vector<ThreeVector> v;
    ThreeVector sum(0, 0, 0);
    for (auto &p : nu) {
      const double m = p.momentum().threevec().abs();
      if (!h::close(p.momentum().x0(), std::sqrt(inv(p.pole_mass()) + m * m), 1e-9)) h::fail("shell", "%s off its mass shell", p.type().name().c_str());
      if (p.pdgcode() != P && p.pdgcode() != N) {
        if (m != 0) h::fail("other", "%s got a Fermi momentum", p.type().name().c_str());
        continue;
      }
      const bool pr = p.pdgcode() == P;
      const double rho = nu.get_saturation_density() * ws(p.position().threevec().abs(), nu.get_nuclear_radius(), nu.get_diffusiveness()) * (pr ? z : n) / (z + n);
      const double pf = 0.197327053 * std::cbrt(3 * M_PI * M_PI * rho);
      if (pf < .03) continue;  // the shift to zero total momentum is not small there
      u[pr].push_back(m * m * m / pf / pf / pf);
      v.push_back(p.momentum().threevec());
    }
    for (auto &p : nu) sum += p.momentum().threevec();
    if (sum.abs() > 1e-7) h::fail("total", "total momentum %g", sum.abs());
    for (int k = 0; k < 2; k++)
      if (u[k].size() > 200) h::follows("sphere", k ? "protons" : "neutrons", u[k], h::flat(0, 1), .012);
    dir_check(v, "Fermi momenta");
    h::evaluated(h::current);
  }
}


SECTION(deformed) {
  h::load_full(false);
  for (int i = 0; i < h::tier(10); i++) {
    random::set_seed(int64_t(rng()));
    const bool pr = h::chance(rng, .5), gam = h::chance(rng, .5);
    const double b2 = h::uni(rng, -.3, .3), b3 = h::chance(rng, .5) ? 0 : h::uni(rng, -.2, .2), b4 = h::uni(rng, -.15, .15), ga = gam ? h::uni(rng, 0, M_PI / 3) : 0;
    const double R = h::uni(rng, 4.5, 7), d = h::uni(rng, .45, .6);
    h::at("R %g d %g beta %g %g %g gamma %g", R, d, b2, b3, b4, ga);
    auto c = side(pr, str("Particles: {2212: 79, 2112: 118}, Radius: %.17g, Diffusiveness: %.17g, Saturation_Density: 0.16, Deformed: {Beta_2: %.17g, Beta_3: %.17g, Beta_4: %.17g%s}", R, d, b2, b3, b4, gam ? str(", Gamma: %.17g", ga).c_str() : ""));
    DeformedNucleus n(c, 1, false);
    c.clear();
    auto radius = [&](double x, double f) {
      const double th = std::acos(std::max(-1., std::min(1., x)));
      auto Y = [&](unsigned l, unsigned m) { return double(std::sph_legendre(l, m, th)) * std::cos(m * f); };
      return R * (1 + b2 * (std::cos(ga) * Y(2, 0) + std::sqrt(2.) * std::sin(ga) * Y(2, 2)) + b3 * Y(3, 0) + b4 * Y(4, 0));
    };
    for (int k = 0; k < 300; k++) {
      const double r = h::uni(rng, 0, 12), x = h::uni(rng, -1, 1), f = h::uni(rng, -M_PI, M_PI), w = ws(r, radius(x, f), d);
      if (!h::close(n.nucleon_density(r, x, f), w * n.get_saturation_density(), 1e-9)) h::fail("density", "density %g at r %g cos %g phi %g, should be %g", n.nucleon_density(r, x, f), r, x, f, w * n.get_saturation_density());
      if (!h::close(n.nucleon_density_unnormalized(r, x, f), w, 1e-9)) h::fail("density", "unnormalised density %g, should be %g", n.nucleon_density_unnormalized(r, x, f), w);
    }
    // number of nucleons per saturation density
    double vol = 0;
    const int K = 60;
    for (int ix = 0; ix < K; ix++)
      for (int jf = 0; jf < K; jf++) {
        const double rr = radius(-1 + 2 * (ix + .5) / K, 2 * M_PI * (jf + .5) / K);
        vol += (rr * rr * rr / 3 * (1 + inv(M_PI * d / rr))) * 2 * 2 * M_PI / K / K;
      }
    if (!h::close(n.calculate_saturation_density() * vol, 197, 4e-3)) h::fail("saturation", "the density integrates to %g", n.calculate_saturation_density() * vol);
    // samples: radius in units of the radius in that direction, and the directions
    std::vector<double> cs, fs, rs[3];
    for (int k = 0; k < 40000; k++) {
      const auto v = n.distribute_nucleon();
      const double r = v.abs(), x = v.x3() / r;
      double f = std::atan2(v.x2(), v.x1());
      if (f < 0) f += 2 * M_PI;
      cs.push_back(x), fs.push_back(f);
      // for a given direction the distribution of r is Woods-Saxon with that radius
      const double R1 = radius(x, f), y = r / R1;
      rs[k % 3].push_back(y);
      (void)y;
    }
    auto share = [&](double rr) { return rr * rr * rr / 3 * (1 + inv(M_PI * d / rr)); };
    h::follows("polar", "cos(theta)", cs, h::Cdf(-1, 1, [&](double x) { double t = 0; for (int j = 0; j < 24; j++) t += share(radius(x, 2 * M_PI * (j + .5) / 24)); return t; }, 300), 1e-3);
    h::follows("azimuth", "phi", fs, h::Cdf(0, 2 * M_PI, [&](double f) { double t = 0; for (int j = 0; j < 40; j++) t += share(radius(-1 + 2 * (j + .5) / 40, f)); return t; }, 300), 1e-3);
    // r / R(direction): averaged over directions with their shares
    h::follows("radial", "radius", rs[0], h::Cdf(0, 2.6, [&](double y) {
      double t = 0;
      for (int ix = 0; ix < 12; ix++)
        for (int j = 0; j < (gam ? 8 : 1); j++) {
          const double R1 = radius(-1 + 2 * (ix + .5) / 12, M_PI * (j + .5) / 8);
          t += y * y * R1 * R1 * R1 * ws(y * R1, R1, d);
        }
      return t;
    }, 600), 3e-3);
    h::evaluated(h::current);
  }
  // automatic parameters
  const double autos[][2] = {{.28, .093}, {0, 0}, {-.131, -.031}, {.162, -.003}, {.162, -.006}, {0, 0}, {.158, 0}};
  for (size_t k = 0; k < 7; k++) {
    h::at("automatic Z %d N %d", known[k].z, known[k].n);
    DeformedNucleus n(nucleus(known[k].z, known[k].n), 1);
    n.set_deformation_parameters_automatic();
    if (n.get_beta2() != autos[k][0] || n.get_beta4() != autos[k][1] || n.get_beta3() != 0) h::fail("automatic", "beta %g %g %g", n.get_beta2(), n.get_beta3(), n.get_beta4());
    auto c = side(k % 2, "Particles: " + text(nucleus(known[k].z, known[k].n)));
    DeformedNucleus m(c, 1, true);
    c.clear();
    if (m.get_beta2() != autos[k][0] || m.get_beta4() != autos[k][1]) h::fail("automatic", "from the configuration: beta %g %g", m.get_beta2(), m.get_beta4());
    double in = 0;
    const int K = 200;
    for (int ix = 0; ix < K; ix++) {
      const double th = std::acos(-1 + 2 * (ix + .5) / K), rr = known[k].r * (1 + autos[k][0] * double(std::sph_legendre(2u, 0u, th)) + autos[k][1] * double(std::sph_legendre(4u, 0u, th)));
      in += rr * rr * rr / 3 * (1 + inv(M_PI * known[k].d / rr)) * 4 * M_PI / K;
    }
    if (!h::close(m.nucleon_density(0, 0, 0) * in, known[k].z + known[k].n, 4e-3)) h::fail("saturation", "automatic: the density integrates to %g", m.nucleon_density(0, 0, 0) * in);
    h::evaluated(h::current);
  }
  for (int k = 0; k < 60; k++) {
    const int A = h::chance(rng, .5) ? known[h::below(rng, 7)].z + 1 + h::range(rng, 30, 150) : h::range(rng, 2, 240), z = h::range(rng, 1, A - 1);
    bool is = false;
    for (auto &x : known) is |= x.z == z && x.z + x.n == A;
    DeformedNucleus n(nucleus(z, A - z), 1);
    h::at("automatic A %d Z %d", A, z);
    bool thrown = false;
    try {
      n.set_deformation_parameters_automatic();
    } catch (const std::domain_error &) {
      thrown = true;
    }
    if (thrown == is) h::fail("unlisted", thrown ? "refused" : "made up deformation parameters");
  }
}

SECTION(orientation) {
  h::load_full(false);
  for (int i = 0; i < h::tier(60); i++) {
    const bool pr = h::chance(rng, .5);
    const double phi = h::chance(rng, .2) ? 0 : h::uni(rng, -7, 7), th = h::chance(rng, .2) ? 0 : h::uni(rng, -4, 4), psi = h::chance(rng, .2) ? 0 : h::uni(rng, -7, 7);
    const int kind = i % 2;
    h::at("%s phi %g theta %g psi %g", kind ? "deformed" : "alpha-clustered", phi, th, psi);
    const int64_t seed = int64_t(rng());
    std::vector<ThreeVector> v[2];
    for (int k = 0; k < 2; k++) {
      std::string o = k == 0 ? "" : str(", Orientation: {Phi: %.17g, Theta: %.17g, Psi: %.17g}", phi, th, psi);
      auto c = side(pr, (kind ? std::string("Particles: {2212: 79, 2112: 118}, Deformed: {Beta_2: 0.2}") : std::string("Particles: {2212: 8, 2112: 8}, Alpha_Clustered: {Side_Length: 3.2}")) + o);
      std::unique_ptr<Nucleus> n;
      if (kind) n = std::make_unique<DeformedNucleus>(c, 1, false);
      else n = std::make_unique<AlphaClusteredNucleus>(c, 1, false);
      c.clear();
      random::set_seed(seed);
      n->arrange_nucleons();
      for (auto &p : *n) v[k].push_back(p.position().threevec());
    }
    double off = 0;
    for (size_t k = 0; k < v[0].size(); k++) off = std::max(off, (v[1][k] - rot(v[0][k], phi, th, psi)).abs());
    if (off > 1e-7) h::fail("angles", "nucleons up to %g away from where the rotation takes them", off);
    h::evaluated(h::current);
  }
  // random rotations are isotropic, and new in every event
  for (int kind = 0; kind < 2; kind++) {
    random::set_seed(int64_t(rng()));
    auto c = side(true, kind ? "Particles: {2212: 1, 2112: 1}, Deformed: {Beta_2: 0.2}, Orientation: {Random_Rotation: True}" : "Particles: {2212: 8, 2112: 8}, Alpha_Clustered: {Side_Length: 900.0}, Orientation: {Random_Rotation: True}");
    std::unique_ptr<Nucleus> n;
    if (kind) n = std::make_unique<DeformedNucleus>(c, 1, false);
    else n = std::make_unique<AlphaClusteredNucleus>(c, 1, false);
    c.clear();
    std::vector<ThreeVector> v;
    for (int k = 0; k < 15000; k++) {
      n->arrange_nucleons();
      v.push_back(n->begin()->position().threevec());
      if (kind || k % 50) continue;
      int near = 0, far = 0;
      for (auto &p : *n) {
        const double d = (p.position().threevec() - v.back()).abs();
        near += d < 30, far += std::fabs(d - 900) < 30;
      }
      if (near != 4 || far != 12) h::fail("rigid", "%d nucleons in the cluster, %d at the distance of the other three", near, far);
    }
    dir_check(v, kind ? "deformed" : "axis of random rotations");
  }
  bool thrown = false;
  auto c = side(true, "Particles: {2212: 8, 2112: 8}, Alpha_Clustered: {Side_Length: 3.2}, Orientation: {Random_Rotation: True, Theta: 1.0}");
  try {
    AlphaClusteredNucleus n(c, 1, false);
  } catch (const std::domain_error &) {
    thrown = true;
  }
  c.clear();
  if (!thrown) h::fail("both", "random rotation and an angle were accepted together");
}

SECTION(alpha) {
  h::load_full(false);
  for (int i = 0; i < h::tier(12); i++) {
    random::set_seed(int64_t(rng()));
    const bool pr = h::chance(rng, .5), automatic = i % 3 == 0;
    const double a = automatic ? 3.42 : h::uni(rng, .5, 6);
    const int t = h::range(rng, 1, 3);
    auto c = side(pr, "Particles: {2212: 8, 2112: 8}" + (automatic ? std::string() : str(", Alpha_Clustered: {Side_Length: %.17g}", a)));
    AlphaClusteredNucleus n(c, t, automatic);
    c.clear();
    h::at("alpha clusters, side length %g, %d test particles", a, t);
    if (n.get_diffusiveness() != .322 || n.get_nuclear_radius() != 1.676) h::fail("parameters", "radius %g diffusiveness %g", n.get_nuclear_radius(), n.get_diffusiveness());
    const double b = std::sqrt(6.) / 4 * a;
    const ThreeVector vert[4] = {ThreeVector(1, 0, 0) * b, ThreeVector(-1. / 3, std::sqrt(8.) / 3, 0) * b, ThreeVector(-1. / 3, -std::sqrt(8.) / 6, std::sqrt(24.) / 6) * b, ThreeVector(-1. / 3, -std::sqrt(8.) / 6, -std::sqrt(24.) / 6) * b};
    std::vector<ThreeVector> in;
    std::vector<double> r;
    // which vertices the nucleons in turn belong to is found from the average position
    std::vector<std::vector<ThreeVector>> turn(4);
    for (int k = 0; k < 40000; k++) turn[size_t(k % 4)].push_back(n.distribute_nucleon());
    int seen = 0;
    for (auto &x : turn) {
      ThreeVector m(0, 0, 0);
      for (auto &y : x) m += y;
      m = m / double(x.size());
      int best = 0;
      for (int k = 1; k < 4; k++)
        if ((m - vert[k]).abs() < (m - vert[best]).abs()) best = k;
      if ((m - vert[best]).abs() > .08) h::fail("vertex", "a cluster at (%g %g %g), %g away from the vertex", m.x1(), m.x2(), m.x3(), (m - vert[best]).abs());
      seen |= 1 << best;
      for (auto &y : x) in.push_back(y - vert[best]), r.push_back(in.back().abs());
    }
    if (seen != 15) h::fail("vertices", "not every vertex has a cluster");
    dir_check(in, "nucleons in a cluster");
    h::follows("radial", "radius in a cluster", r, h::Cdf(0, 12, [](double x) { return x * x * ws(x, 1.676, .322); }));
    h::evaluated(h::current);
  }
  for (auto bad : {"{2212: 6, 2112: 6}", "{2212: 7, 2112: 9}", "{2212: 79, 2112: 118}"}) {
    auto c = side(true, std::string("Particles: ") + bad);
    bool thrown = false;
    try {
      AlphaClusteredNucleus n(c, 1, true);
    } catch (const std::domain_error &) {
      thrown = true;
    }
    c.clear();
    if (!thrown) h::fail("oxygen", "alpha clusters in %s", bad);
  }
}

SECTION(custom) {  // nuclei read from files
  h::load_full(false);
  const std::string dir = h::env("VERIF_SCRATCH", "/tmp") + "/verif_nuclei_" + std::to_string(getpid());
  std::filesystem::create_directories(dir);
  for (int i = 0; i < h::tier(60); i++) {
    random::set_seed(int64_t(rng()));
    const int z = h::range(rng, 1, 20), nn = h::range(rng, 1, 20), t = 1, m = h::range(rng, 1, 4), A = z + nn;
    struct Row {
      ThreeVector x;
      int iso;
    };
    std::vector<std::vector<Row>> rows;
    std::string body;
    for (int k = 0; k < m; k++) {
      std::vector<Row> v;
      for (int j = 0; j < A; j++) v.push_back({ThreeVector(h::uni(rng, -6, 6), h::uni(rng, -6, 6), h::uni(rng, -6, 6)), j < z});
      std::shuffle(v.begin(), v.end(), rng);
      for (auto &x : v) body += str("%.17g %.17g %.17g %d %d\n", x.x.x1(), x.x.x2(), x.x.x3(), h::below(rng, 2), x.iso);
      rows.push_back(v);
    }
    { std::ofstream(dir + "/nuclei.txt") << body; }
    const bool slash = h::chance(rng, .5);
    auto c = side(h::chance(rng, .5), "Particles: " + text(nucleus(z, nn)) + ", Custom: {File_Directory: \"" + dir + (slash ? "/" : "") + "\", File_Name: \"nuclei.txt\"}");
    CustomNucleus n(c, t, false);
    c.clear();
    h::at("custom, %d protons, %d neutrons, %d nuclei in the file", z, nn, m);
    for (int e = 0; e < 2 * m + 1; e++) {
      n.arrange_nucleons();
      const auto &v = rows[size_t(e % m)];
      std::vector<ParticleData> got(n.cbegin(), n.cend());
      if (got.size() != v.size()) {
        h::fail("size", "%zu nucleons of %zu", got.size(), v.size());
        break;
      }
      double stretch = 0;
      ThreeVector mean(0, 0, 0), a, b;
      for (auto &x : v) mean += x.x / A;
      FourVector centre;
      for (size_t j = 0; j < v.size(); j++) {
        if ((got[j].pdgcode() == P) != (v[j].iso == 1)) h::fail("charge", "nucleon %zu of event %d", j, e);
        if (!h::close(got[j].momentum().x0(), got[j].pole_mass(), 1e-12) || got[j].momentum().threevec().abs() != 0) h::fail("rest", "nucleon %zu moves", j);
        centre += got[j].position();
        for (size_t l = 0; l < j; l++) stretch = std::max(stretch, std::fabs((v[j].x - v[l].x).abs() - (got[j].position() - got[l].position()).threevec().abs()));
      }
      if (stretch > 1e-7) h::fail("rigid", "event %d: distances differ by %g from the file", e, stretch);
      if (A > 3) {  // not mirrored
        auto vol = [](const ThreeVector &x, const ThreeVector &y, const ThreeVector &w) { return x * y.cross_product(w); };
        auto g = [&](size_t j) { return (got[j].position() - got[0].position()).threevec(); };
        if (!h::close(vol(v[1].x - v[0].x, v[2].x - v[0].x, v[3].x - v[0].x), vol(g(1), g(2), g(3)), 1e-6, 1e-6)) h::fail("mirror", "event %d is mirrored", e);
      }
      if (centre.threevec().abs() > 1e-7) h::fail("centre", "centre off by %g", centre.threevec().abs());
      h::evaluated(std::string(h::current) + std::to_string(e));
    }
    // a wrong number of protons is refused
    if (nn == 1) continue;
    bool thrown = false;
    auto c2 = side(true, "Particles: " + text(nucleus(z + 1, nn - 1)) + ", Custom: {File_Directory: \"" + dir + "\", File_Name: \"nuclei.txt\"}");
    try {
      CustomNucleus w(c2, t, false);
    } catch (const std::runtime_error &) {
      thrown = true;
    }
    c2.clear();
    if (!thrown) h::fail("mismatch", "%d+1 protons read from a file with %d", z, z);
  }
  std::filesystem::remove_all(dir);
}

namespace {
/// nucleon-nucleon and total energy squared from each way to give it
struct Energy {
  std::string general, proj, targ;
  double gamma_rel;  // of one nucleus seen from the other
};
Energy energy(h::Rng &rng, double ma, double mb) {
  Energy e;
  const int kind = h::below(rng, 7);
  const double T = std::exp(h::uni(rng, std::log(.05), std::log(300.)));
  auto one = [&](int k, double m, double t, std::string *s) {  // gamma of a nucleon with kinetic energy t
    const double en = t + m;
    *s = k == 0 ? str("E_Kin: %.17g", t) : k == 1 ? str("E_Tot: %.17g", en) : str("P_Lab: %.17g", std::sqrt(en * en - m * m));
    return en / m;
  };
  if (kind == 0) {
    const double s = ma + mb + T;
    e.general = str("Sqrtsnn: %.17g", s);
    e.gamma_rel = (s * s - ma * ma - mb * mb) / 2 / ma / mb;
  } else if (kind < 4) {
    e.gamma_rel = one(kind - 1, ma, T, &e.general);
  } else {
    const double t2 = T * std::exp(h::uni(rng, -2, 2));
    const double ga = one(kind - 4, ma, T / 5, &e.proj), gb = one(kind - 4, mb, t2 / 5, &e.targ);
    e.gamma_rel = ga * gb + std::sqrt((ga * ga - 1) * (gb * gb - 1));
  }
  return e;
}
double avg(const List &l) {
  double m = 0;
  int n = 0;
  for (auto &x : l) m += x.second * ParticleType::find(x.first).mass(), n += x.second;
  return m / n;
}
Configuration join(const std::string &x) { return Configuration(x.c_str()); }
std::string conf(const List &a, const List &b, const Energy &e, const std::string &more) {
  return "Modi: {Collider: {Projectile: {Particles: " + text(a) + (e.proj.empty() ? "" : ", " + e.proj) + "}, Target: {Particles: " + text(b) + (e.targ.empty() ? "" : ", " + e.targ) + "}" + (e.general.empty() ? "" : ", " + e.general) + more + "}}";
}
List random_nucleus(h::Rng &rng) {
  switch (h::below(rng, 5)) {
    case 0: return {{P, 1}};
    case 1: return nucleus(known[h::below(rng, 7)].z, known[0].n / 2);
    case 2: {
      List l = nucleus(1, 1);
      l[PdgCode("3122")] = 1;
      return l;
    }
    case 3: return {{PdgCode(h::chance(rng, .5) ? "211" : "-2212"), 1}};
    default: return nucleus(h::range(rng, 1, 60), h::range(rng, 1, 60));
  }
}
}  // namespace

SECTION(energy) {  // the energy of the collision, in every frame
  h::load_full(false);
  for (int i = 0; i < h::tier(500); i++) {
    random::set_seed(int64_t(rng()));
    const List a = random_nucleus(rng), b = random_nucleus(rng);
    const double ma = avg(a), mb = avg(b);
    const Energy e = energy(rng, ma, mb);
    const int frame = h::below(rng, 4), fm = h::below(rng, 3), t = h::range(rng, 1, 3);
    const char *frames[] = {"", ", Calculation_Frame: \"center of velocity\"", ", Calculation_Frame: \"center of mass\"", ", Calculation_Frame: \"fixed target\""};
    const char *fermi[] = {"off", "on", "frozen"};
    const double b0 = h::chance(rng, .5) ? 0 : h::uni(rng, 0, 12), dist = h::chance(rng, .3) ? 4 : h::uni(rng, .5, 15);
    const std::string text = conf(a, b, e, std::string(frames[frame]) + ", Fermi_Motion: " + fermi[fm] + (b0 > 0 ? str(", Impact: {Value: %.17g}", b0) : "") + (dist == 4 ? "" : str(", Initial_Distance: %.17g", dist)));
    h::at("%s", text.c_str());
    auto par = h::params(t);
    ColliderModus m(join(text), par);
    const double snn = std::sqrt(ma * ma + mb * mb + 2 * ma * mb * e.gamma_rel);
    if (!h::close(m.sqrt_s_NN(), snn, 1e-7)) h::fail("sqrts", "sqrt(s_NN) is %.10g, should be %.10g", m.sqrt_s_NN(), snn);
    if (m.calculation_frame_is_fixed_target() != (frame == 3) || !m.is_collider()) h::fail("frame", "wrong frame");
    if (m.impact_parameter() != b0) { m.sample_impact(); }
    if (!h::close(m.impact_parameter(), b0, 1e-12)) h::fail("impact", "impact parameter %g, should be %g", m.impact_parameter(), b0);
    Particles ps;
    const double t0 = m.initial_conditions(&ps, par);
    FourVector p[2];
    ThreeVector x[2];
    int n[2] = {0, 0};
    List got[2];
    for (auto &q : ps) {
      const int k = q.belongs_to() == BelongsTo::Projectile ? 0 : 1;
      if (q.belongs_to() == BelongsTo::Nothing) h::fail("label", "a nucleon of no nucleus");
      p[k] += q.momentum(), x[k] += q.position().threevec(), n[k]++, got[k][q.pdgcode()]++;
      if (q.position().x0() != t0 || q.formation_time() != t0) h::fail("time", "a nucleon at time %g, formed at %g, should be %g", q.position().x0(), q.formation_time(), t0);
      if (!h::close(q.effective_mass(), q.pole_mass(), 1e-4, 1e-6 * q.momentum().x0())) h::fail("shell", "mass %g of %s", q.effective_mass(), q.type().name().c_str());
    }
    List wa = a, wb = b;
    for (auto &y : wa) y.second *= t;
    for (auto &y : wb) y.second *= t;
    if (got[0] != wa || got[1] != wb) {
      h::fail("content", "wrong nucleons");
      continue;
    }
    const double va = p[0].x3() / p[0].x0(), vb = p[1].x3() / p[1].x0();
    // velocities from gamma_rel: rapidities are exact enough at high energies
    const double Y = std::acosh(e.gamma_rel), MA = ma * n[0] / t, MB = mb * n[1] / t;
    double ya, yb;
    if (frame <= 1) ya = Y / 2, yb = -Y / 2;
    else if (frame == 3) ya = Y, yb = 0;
    else {  // total momentum zero: MA sinh(ya) = -MB sinh(yb), ya - yb = Y
      ya = std::atanh(MB * std::sinh(Y) / (MA + MB * std::cosh(Y)));
      yb = ya - Y;
    }
    for (int k = 0; k < 2; k++) {
      const double y = std::atanh(p[k].x3() / p[k].x0()), w = k ? yb : ya;
      if (!h::close(y, w, 1e-6, 1e-6)) h::fail("rapidity", "%s has rapidity %.9g, should be %.9g", k ? "target" : "projectile", y, w);
      const double pt = std::hypot(p[k].x1(), p[k].x2());
      if (pt > 1e-7 * n[k]) h::fail("transverse", "transverse momentum %g", pt);
      if (fm == 0 && !h::close(p[k].abs(), k ? MB * t : MA * t, 1e-4)) h::fail("mass", "mass %g of the %s", p[k].abs(), k ? "target" : "projectile");
    }
    if (fm == 2 && (!h::close(m.velocity_projectile(), std::tanh(ya), 1e-7, 1e-9) || !h::close(m.velocity_target(), std::tanh(yb), 1e-7, 1e-9))) h::fail("beam", "beam velocities %g, %g, should be %g, %g", m.velocity_projectile(), m.velocity_target(), std::tanh(ya), std::tanh(yb));
    if (m.fermi_motion() != (fm == 0 ? FermiMotion::Off : fm == 1 ? FermiMotion::On : FermiMotion::Frozen)) h::fail("fermi", "wrong treatment of Fermi motion");
    // places: the edges of the nuclei would be at the origin at time zero
    Nucleus na(a, t), nb(b, t);
    const double ra = (na.get_nuclear_radius() + std::max(0., na.get_diffusiveness())) / std::cosh(ya), rb = (nb.get_nuclear_radius() + std::max(0., nb.get_diffusiveness())) / std::cosh(yb);
    const ThreeVector ca = x[0] / n[0], cb = x[1] / n[1];
    if (!h::close(t0, -dist / 2 / std::fabs(va), 1e-7)) h::fail("start", "starts at %g, should be %g", t0, -dist / 2 / std::fabs(va));
    if (!h::close(ca.x3() - va * t0, -ra, 1e-5, 1e-6 * (1 + std::fabs(t0)))) h::fail("z", "the projectile's edge is at %g at time zero", ca.x3() - va * t0 + ra);
    if (!h::close(cb.x3() - vb * t0, rb, 1e-5, 1e-6 * (1 + std::fabs(t0)))) h::fail("z", "the target's edge is at %g at time zero", cb.x3() - vb * t0 - rb);
    if (!h::close(ca.x1(), b0 / 2, 1e-9, 1e-8) || !h::close(cb.x1(), -b0 / 2, 1e-9, 1e-8) || std::fabs(ca.x2()) + std::fabs(cb.x2()) > 1e-8) h::fail("b", "centres at (%g %g) and (%g %g), impact parameter %g", ca.x1(), ca.x2(), cb.x1(), cb.x2(), b0);
    const double pass = (na.get_nuclear_radius() + nb.get_nuclear_radius()) / std::sqrt(inv(snn / 2 / nucleon_mass) - 1);
    if (snn > 2 * nucleon_mass + 1e-3 && !h::close(m.nuclei_passing_time(), pass, 1e-4)) h::fail("passing", "passing time %g, should be %g", m.nuclei_passing_time(), pass);
    h::evaluated(h::current);
  }
}

SECTION(refused) {  // energies that make no collision are refused
  h::load_full(false);
  const char *bad[] = {"", ", Sqrtsnn: 1.5", ", Sqrtsnn: 1.876", ", E_Kin: -0.1", ", E_Tot: -1", ", P_Lab: -3", ", Sqrtsnn: 3, E_Kin: 1", ", P_Lab: 3, E_Tot: 4", ", E_Kin: 1, P_Lab: 1"};
  for (auto x : bad) {
    h::at("energy given as \"%s\"", x);
    auto par = h::params();
    bool thrown = false;
    try {
      ColliderModus m(join(std::string("Modi: {Collider: {Projectile: {Particles: {2212: 1, 2112: 1}}, Target: {Particles: {2212: 1}}") + x + "}}"), par);
    } catch (const std::exception &) {
      thrown = true;
    }
    if (!thrown) h::fail("accepted", "accepted");
    h::evaluated(h::current);
  }
  for (auto x : {"E_Kin: -1", "E_Tot: -1", "P_Lab: -1"}) {
    auto par = h::params();
    bool thrown = false;
    const std::string y(x);
    try {
      ColliderModus m(join("Modi: {Collider: {Projectile: {Particles: {2212: 1}, " + y + "}, Target: {Particles: {2212: 1}, " + y.substr(0, 7) + "2}}}"), par);
    } catch (const std::exception &) {
      thrown = true;
    }
    if (!thrown) h::fail("accepted", "%s of one beam accepted", x);
    h::evaluated(y);
  }
}

SECTION(impact) {  // distribution of the impact parameter and the reaction plane
  h::load_full(false);
  const char *base = "Modi: {Collider: {Projectile: {Particles: {2212: 1}}, Target: {Particles: {2212: 1}}, Sqrtsnn: 5, Impact: {";
  for (int i = 0; i < h::tier(24); i++) {
    random::set_seed(int64_t(rng()));
    const int kind = i % 4;
    const double lo = h::chance(rng, .4) ? 0 : h::uni(rng, 0, 8), hi = lo + h::uni(rng, .1, 10);
    const bool max = lo == 0 && h::chance(rng, .5), rev = !max && kind < 2 && h::chance(rng, .5);
    std::string s = base;
    std::function<double(double)> pdf;
    double a = lo, b = hi;
    if (kind < 3) {
      s += kind == 0 ? "Sample: uniform, " : kind == 1 ? "Sample: quadratic, " : "";
      s += max ? str("Max: %.17g", hi) : rev && kind ? str("Range: [%.17g, %.17g]", hi, lo) : str("Range: [%.17g, %.17g]", lo, hi);
      if (kind == 0) pdf = [](double) { return 1.; };
      else pdf = [](double x) { return x; };
    } else {
      const int n = h::range(rng, 2, 6);
      std::vector<double> v{lo}, y;
      for (int k = 1; k < n; k++) v.push_back(v.back() + h::uni(rng, .2, 3));
      for (int k = 0; k < n; k++) y.push_back(h::chance(rng, .2) ? 0 : h::uni(rng, .1, 20));
      y[size_t(h::below(rng, n))] = 20;
      a = v.front(), b = v.back();
      pdf = [v, y](double x) {
        size_t k = 1;
        while (k + 1 < v.size() && x > v[k]) k++;
        return y[k - 1] + (y[k] - y[k - 1]) * (x - v[k - 1]) / (v[k] - v[k - 1]);
      };
      std::vector<size_t> o(static_cast<size_t>(n));
      for (size_t k = 0; k < o.size(); k++) o[k] = k;
      if (h::chance(rng, .5)) std::shuffle(o.begin(), o.end(), rng);
      std::string sv, sy;
      for (auto k : o) sv += (sv.empty() ? "" : ", ") + str("%.17g", v[k]), sy += (sy.empty() ? "" : ", ") + str("%.17g", y[k]);
      s += "Sample: custom, Values: [" + sv + "], Yields: [" + sy + "]";
    }
    s += "}}}";
    h::at("%s", s.c_str() + std::strlen(base));
    ColliderModus m(join(s), h::params());
    std::vector<double> got;
    for (int k = 0; k < 20000; k++) {
      m.sample_impact();
      got.push_back(m.impact_parameter());
      if (!(got.back() >= a - 1e-9 && got.back() <= b + 1e-9)) {
        h::fail("range", "impact parameter %g outside of [%g, %g]", got.back(), a, b);
        break;
      }
    }
    h::follows("distribution", "impact parameter", got, h::Cdf(a, b, pdf, 4000));
    h::evaluated(h::current);
  }
  // reaction plane
  for (int k = 0; k < 3; k++) {
    random::set_seed(int64_t(rng()));
    const double b = h::uni(rng, .5, 9);
    const bool rnd = k < 2;
    auto par = h::params();
    ColliderModus m(join(std::string(base) + str("Value: %.17g%s}}}", b, k == 0 ? ", Random_Reaction_Plane: True" : k == 1 ? ", Random_Reaction_Plane: True" : "")), par);
    std::vector<double> f;
    for (int j = 0; j < 8000; j++) {
      Particles ps;
      m.initial_conditions(&ps, par);
      ThreeVector d(0, 0, 0);
      for (auto &p : ps) d += (p.belongs_to() == BelongsTo::Projectile ? 1. : -1.) * p.position().threevec();
      f.push_back(std::atan2(d.x2(), d.x1()));
      if (!h::close(std::hypot(d.x1(), d.x2()), b, 1e-9)) h::fail("length", "impact parameter %g in the plane, should be %g", std::hypot(d.x1(), d.x2()), b);
      if (!rnd && std::fabs(f.back()) > 1e-9) h::fail("plane", "the reaction plane is turned by %g", f.back());
    }
    if (rnd) h::follows("plane", "angle of the reaction plane", f, h::flat(-M_PI, M_PI));
  }
}

HARNESS_MAIN
