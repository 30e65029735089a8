// R17: parametrized cross sections have the values of the parametrizations they stand for
#include <cmath>
#include <functional>
#include <map>
#include <string>
#include <vector>

#include "smash/average.h"
#include "smash/crosssectionsphoton.h"
#include "smash/interpolation.h"
#include "smash/kinematics.h"
#include "smash/lowess.h"
#include "smash/parametrizations.h"
#include "smash/parametrizations_data.h"
#include "smash/pow.h"

#include "h.h"
#include "smashenv.h"
using namespace smash;
namespace {
const double mN = .938, mpi = .138, mK = .494;
double plab(double s, double m, double M) { return std::sqrt(std::max(0., (s - (m + M) * (m + M)) * (s - (m - M) * (m - M)))) / (2 * M); }
double lg(double x) { return std::log(x) * std::log(x); }
void same(const char *what, double x, double got, double want, double tol = 1e-9) {
  h::at("%s at %.9g", what, x);
  if (!h::close(got, want, tol, 1e-9)) h::fail(std::string("values/") + what, "%.12g instead of %.12g", got, want);
  h::evaluated(h::current);
}
/// c/(c+...) of K. A. Olive et al., Chin. Phys. C 38, 090001, table 51.2
double regge(double s, double ma, double mb, double P, double R1, double R2, int sign) {
  const double x = s / std::pow(ma + mb + 2.1206, 2);
  return .272 * lg(x) + P + R1 * std::pow(x, -.4473) + sign * R2 * std::pow(x, -.5486);
}
/// CERN-HERA fits
double hera(double p, double A, double B, double n, double C, double D) { return A + B * std::pow(p, n) + C * lg(p) + D * std::log(p); }
double near(h::Rng &rng, const std::vector<double> &edges, double lo, double hi) {
  if (h::chance(rng, .3)) {
    const double e = edges[size_t(h::below(rng, int(edges.size())))];
    const double x = e * (1 + h::uni(rng, -.01, .01) * (h::chance(rng, .5) ? 1 : 1e-3));
    if (x > lo && x < hi) return x;
  }
  return lo * std::pow(hi / lo, h::uni(rng, 0, 1));
}
double s_of(double p, double m, double M) { return m * m + M * M + 2 * M * std::sqrt(p * p + m * m); }

void nucleons(h::Rng &rng) {
  const std::vector<double> edges{.3, .4, .435, .525, .8, 1., 1.5, 2., 2.776, 5.};
  for (int n = 0; n < h::tier(20000); n++) {
    const double pl = near(rng, edges, .05, 3e4), s = s_of(pl, mN, mN), p = plab(s, mN, mN);
    bool edge = false;
    for (double e : edges) edge |= std::abs(p - e) < 1e-6;
    if (edge) continue;
    const double T = s - 4 * mN * mN, e = hera(p, 11.9, 26.9, -1.21, .169, -1.85), t = 48 + .522 * lg(p) - 4.51 * std::log(p);
    // J. Cugnon et al., Nucl. Instrum. Meth. B 111, 215
    same("pp_elastic", p, pp_elastic(s), p < .435 ? 5.12 * mN / T + 1.67 : p < .8 ? 23.5 + 1000 * std::pow(p - .7, 4) : p < 2 ? 1250 / (p + 50) - 4 * std::pow(p - 1.3, 2) : p < 2.776 ? 77 / (p + 1.5) : e);
    same("np_elastic", p, np_elastic(s), p < .525 ? 17.05 * mN / T - 6.83 : p < .8 ? 33 + 196 * std::pow(std::abs(p - .95), 2.5) : p < 2 ? 31 / std::sqrt(p) : p < 2.776 ? 77 / (p + 1.5) : e);
    same("pp_total", p, pp_total(s), p < .4 ? 34 * std::pow(p / .4, -2.104) : p < .8 ? 23.5 + 1000 * std::pow(p - .7, 4) : p < 1.5 ? 23.5 + 24.6 / (1 + std::exp(-(p - 1.2) / .1)) : p < 5 ? 41 + 60 * (p - .9) * std::exp(-1.2 * p) : t);
    same("np_total", p, np_total(s), p < .4 ? 6.3555 * std::pow(p, -3.2481) * std::exp(-.377 * lg(p)) : p < 1 ? 33 + 196 * std::pow(std::abs(p - .95), 2.5) : p < 2 ? 24.2 + 8.9 * p : p < 5 ? 42 : t);
    same("ppbar_elastic", p, ppbar_elastic(s), p < .3 ? 78.6 : p < 5 ? 31.6 + 18.3 / p - 1.1 / (p * p) - 3.8 * p : hera(p, 10.2, 52.7, -1.16, .125, -1.28));
    same("ppbar_total", p, ppbar_total(s), p < .3 ? 271.6 * std::exp(-1.1 * p * p) : p < 5 ? 75 + 43.1 / p + 2.6 / (p * p) - 3.9 * p : hera(p, 38.4, 77.6, -.64, .26, -1.2));
    const double m1 = h::uni(rng, .1, 1.5), m2 = h::uni(rng, .1, 1.5), s2 = std::pow(m1 + m2 + h::uni(rng, .5, 100), 2), q = plab(s2, std::min(m1, m2), std::max(m1, m2));
    same("pp_elastic_high_energy", q, pp_elastic_high_energy(s2, m1, m2), hera(q, 11.9, 26.9, -1.21, .169, -1.85));
    same("piplusp_elastic_high_energy", q, piplusp_elastic_high_energy(s2, m1, m2), hera(q, 0, 11.4, -.4, .079, 0));
    if (std::abs(q - 3.05) > 1e-6) same("piplusp_elastic_AQM", q, piplusp_elastic_AQM(s2, m1, m2), q < 3.05 ? 7.5 : hera(q, 0, 11.4, -.4, .079, 0));
    if (p > 5.01) {
      // there is not more elastic than total, and antiprotons see more than protons
      if (pp_elastic(s) > pp_total(s) || np_elastic(s) > np_total(s) || ppbar_elastic(s) > ppbar_total(s)) h::fail("values/order", "more elastic than total");
    }
    if (s > 30) {
      same("pp_high_energy", s, pp_high_energy(s), regge(s, .939, .939, 34.41, 13.07, 7.394, -1));
      same("ppbar_high_energy", s, ppbar_high_energy(s), regge(s, .939, .939, 34.41, 13.07, 7.394, 1));
      same("np_high_energy", s, np_high_energy(s), regge(s, .939, .939, 34.41, 12.52, 6.66, -1));
      same("npbar_high_energy", s, npbar_high_energy(s), regge(s, .939, .939, 34.41, 12.52, 6.66, 1));
      same("piplusp_high_energy", s, piplusp_high_energy(s), regge(s, .939, .138, 18.75, 9.56, 1.767, -1));
      same("piminusp_high_energy", s, piminusp_high_energy(s), regge(s, .939, .138, 18.75, 9.56, 1.767, 1));
    }
    const double s0 = 4 * mN * mN, a2 = .05 * .05 * s0;
    same("xs_ppbar_annihilation", s, xs_ppbar_annihilation(s), 120 * s0 / s * (a2 / (std::pow(s - s0, 2) + a2) + .6));
    const double r = near(rng, {4.1, 3.5, 2.3}, 1., 300.);
    const auto hard = [&](double x0, double e0, double l) { return r < e0 ? 0. : x0 * std::pow(std::log(r / e0), l); };
    same("NN_string_hard", r, NN_string_hard(r * r), hard(.087, 4.1, 3.8), 1e-7);
    same("Npi_string_hard", r, Npi_string_hard(r * r), hard(.042, 3.5, 4.2), 1e-7);
    same("pipi_string_hard", r, pipi_string_hard(r * r), hard(.013, 2.3, 4.7), 1e-7);
    const double e0 = h::uni(rng, 1, 5), x0 = h::uni(rng, .01, .1), l = h::uni(rng, 3, 5);
    same("xs_string_hard", r, xs_string_hard(r * r, x0, e0, l), hard(x0, e0, l), 1e-7);
    const double sd = h::chance(rng, .5) ? h::uni(rng, 7.8, 8.3) : h::uni(rng, 7.8, 30);
    same("deuteron_nucleon_elastic", sd, deuteron_nucleon_elastic(sd), 2500 * std::exp(-std::pow(sd - 7.93, 2) / .003) + 600 * std::exp(-std::pow(sd - 7.93, 2) / .1) + 10);
    const double rd = h::uni(rng, 2.02, 5);
    same("deuteron_pion_elastic", rd, deuteron_pion_elastic(rd * rd), 4 + .27 / (std::pow(rd - 2.172, 2) + .065 * .065), 1e-7);
  }
  for (double s : {.1, 1., 3.5})
    if (ppbar_elastic(s) != 0 || ppbar_total(s) != 0) h::fail("values/threshold", "a cross section below the threshold");
}
h::Reg r1("nucleons", nucleons);

void strange(h::Rng &rng) {
  for (int n = 0; n < h::tier(20000); n++) {
    const double pl = near(rng, {.3, 1.}, .03, 50), s = s_of(pl, mK, mN), p = plab(s, mK, mN), r = std::sqrt(s);
    const double kp = (10.508 - 3.716 * p + 1.845 * p * p) / (1 - .764 * p + .508 * p * p);
    same("kplusp_elastic", p, kplusp_elastic_background(s), kp);
    same("k0n_elastic", p, k0n_elastic_background(s), kp);
    same("kplusn_elastic", p, kplusn_elastic_background(s), kp / 4);
    same("k0p_elastic", p, k0p_elastic_background(s), kp / 4);
    same("kplusn_k0p", p, kplusn_k0p(s), kp / 4);
    same("kminusn_elastic", p, kminusn_elastic_background(s), 4.);
    same("kbar0p_elastic", p, kbar0p_elastic_background(s), 4.);
    const double km = kminusp_elastic_background(s);
    if (!(km >= 0 && std::isfinite(km))) h::fail("values/kminusp_elastic", "%g", km);
    same("kbar0n_elastic", p, kbar0n_elastic_background(s), km);
    same("kminusp_kbar0n", p, kminusp_kbar0n(s), 100 / s * std::pow(.15 * .15 / (.15 * .15 + p * p), 2));
    // F. Li et al., Phys. Rev. C 85, 064902 and the fits of the K- p data
    const auto pole = [&](double a, double b) { return a / ((r - b) * (r - b)); };
    const double sp = pole(.0788265, 1.38841), sm = pole(.0196741, 1.42318), s0 = pole(.0403364, 1.39830305), la = pole(.05932562, 1.38786692);
    same("kminusp_piminussigmaplus", r, kminusp_piminussigmaplus(r), sp);
    same("kminusp_piplussigmaminus", r, kminusp_piplussigmaminus(r), sm);
    same("kminusp_pi0sigma0", r, kminusp_pi0sigma0(r), s0);
    same("kminusp_pi0lambda", r, kminusp_pi0lambda(r), la);
    same("kminusn_piminussigma0", r, kminusn_piminussigma0(r), sp + sm - 2 * s0, 1e-7);
    same("kminusn_piminuslambda", r, kminusn_piminuslambda(r), 2 * la);
    const double d = near(rng, {.03336, .09047}, 1e-4, 3.), a = h::uni(rng, .01, 2), b = h::uni(rng, .01, 2);
    same("lambdalambda_ximinusp", d, lambdalambda_ximinusp(d, a, b), 37.15 / 2 * a / b * std::pow(d, -.16));
    same("lambdalambda_xi0n", d, lambdalambda_xi0n(d, a, b), 37.15 / 2 * a / b * std::pow(d, -.16));
    const double ls = d < .03336 ? 6.475 * std::pow(d, -.4167) : 14.5054 * std::pow(d, -.1795), ss = d < .09047 ? 5.625 * std::pow(d, -.318) : 4.174 * std::pow(d, -.4421);
    const double lp = 24.3781 * std::pow(d, -.479), pm = 14.194 * std::pow(d, -.442);
    same("lambdasigmaplus_xi0p", d, lambdasigmaplus_xi0p(d), lp);
    same("lambdasigmaminus_ximinusn", d, lambdasigmaminus_ximinusn(d), lp);
    same("lambdasigma0_ximinusp", d, lambdasigma0_ximinusp(d), ls);
    same("lambdasigma0_xi0n", d, lambdasigma0_xi0n(d), ls);
    same("sigma0sigma0_ximinusp", d, sigma0sigma0_ximinusp(d), ss);
    same("sigma0sigma0_xi0n", d, sigma0sigma0_xi0n(d), ss);
    same("sigmaplussigmaminus_xi0p", d, sigmaplussigmaminus_xi0p(d), 4 * ss);
    same("sigma0sigmaminus_ximinusn", d, sigma0sigmaminus_ximinusn(d), 4 * ss);
    same("sigmaplussigmaminus_ximinusp", d, sigmaplussigmaminus_ximinusp(d), pm);
    same("sigmaplussigmaminus_xi0n", d, sigmaplussigmaminus_xi0n(d), pm);
  }
  // K N -> K Delta: isospin of 1/2 x 1/2 coupled to 1/2 x 3/2
  h::load_mid();
  const auto t = [](const char *c) -> const ParticleType & { return ParticleType::find(PdgCode(std::string(c))); };
  struct Ratio {
    const char *a, *b, *c, *d;
    double r;
  };
  const std::vector<Ratio> ratios{{"2212", "321", "311", "2224", .75}, {"2212", "321", "321", "2214", .25}, {"2112", "321", "311", "2214", .5}, {"2112", "321", "321", "2114", .5}, {"2212", "311", "311", "2214", .5}, {"2212", "311", "321", "2114", .5}, {"2112", "311", "311", "2114", .25}, {"2112", "311", "321", "1114", .75}};
  for (const Ratio &r : ratios)
    for (int anti = 0; anti < 2; anti++) {
      const std::string m = anti ? "-" : "";
      const auto f = [&](const char *c) -> const ParticleType & { return t((m + c).c_str()); };
      h::at("%s %s -> %s %s %d", r.a, r.b, r.c, r.d, anti);
      const double x = kaon_nucleon_ratios.get_ratio(f(r.a), f(r.b), f(r.c), f(r.d));
      if (!h::close(x, r.r, 1e-9)) h::fail("values/ratio", "%g instead of %g", x, r.r);
      h::evaluated(h::current);
    }
  // which pairs are parametrized
  const std::vector<const char *> all{"2212", "-2112", "321", "-311", "211", "111", "3122", "2224", "113", "313", "221", "22"};
  for (auto a : all)
    for (auto b : all) {
      const auto cls = [](std::string c) {
        if (c[0] == '-') c = c.substr(1);
        return c == "2212" || c == "2112" ? 'N' : c == "321" || c == "311" ? 'K' : c == "211" || c == "111" ? 'p' : '-';
      };
      const std::string k{cls(a), cls(b)};
      const bool want = k == "NN" || k == "NK" || k == "KN" || k == "Np" || k == "pN" || k == "pp";
      if (parametrization_exists(PdgCode(std::string(a)), PdgCode(std::string(b))) != want) h::fail("values/exists", "%s %s", a, b);
      h::evaluated(k + a + b);
    }
}
h::Reg r2("strange", strange);

/// measured cross sections: smoothed data, interpolated
struct Curve {
  std::vector<double> x, y, rawx, rawy;
  std::unique_ptr<InterpolateDataLinear<double>> f;
  Curve(const std::vector<double> &X, const std::vector<double> &Y, double span, int iter) : rawx(X), rawy(Y) {
    auto [dx, dy] = dedup_avg<double>(X, Y);
    x = dx;
    y = smooth(dx, dy, span, size_t(iter));
    f = std::make_unique<InterpolateDataLinear<double>>(x, y);
  }
  double operator()(double v) const { return (*f)(v); }
};
void data(h::Rng &rng) {
  const Curve pipm(PIPLUSPIMINUS_TOT_SQRTS, PIPLUSPIMINUS_TOT_SIG, .01, 10), pi00(PIZEROPIZERO_TOT_SQRTS, PIZEROPIZERO_TOT_SIG, .01, 10), ppt(PIPLUSP_TOT_SQRTS, PIPLUSP_TOT_SIG, .01, 10),
      pmt(PIMINUSP_TOT_SQRTS, PIMINUSP_TOT_SIG, .01, 6), ppe(PIPLUSP_ELASTIC_P_LAB, PIPLUSP_ELASTIC_SIG, .1, 5), pme(PIMINUSP_ELASTIC_P_LAB, PIMINUSP_ELASTIC_SIG, .2, 6),
      spk(PIPLUSP_SIGMAPLUSKPLUS_P_LAB, PIPLUSP_SIGMAPLUSKPLUS_SIG, .2, 5), lk(PIMINUSP_LAMBDAK0_P_LAB, PIMINUSP_LAMBDAK0_SIG, .2, 6), smk(PIMINUSP_SIGMAMINUSKPLUS_P_LAB, PIMINUSP_SIGMAMINUSKPLUS_SIG, .2, 6),
      s0k(PIMINUSP_SIGMA0K0_RES_SQRTS, PIMINUSP_SIGMA0K0_RES_SIG, .2, 6), kpp(KPLUSP_TOT_PLAB, KPLUSP_TOT_SIG, .1, 5), kpn(KPLUSN_TOT_PLAB, KPLUSN_TOT_SIG, .05, 5), kmp(KMINUSP_TOT_PLAB, KMINUSP_TOT_SIG, .01, 5),
      kmn(KMINUSN_TOT_PLAB, KMINUSN_TOT_SIG, .05, 5), kme(KMINUSP_ELASTIC_P_LAB, KMINUSP_ELASTIC_SIG, .1, 5);
  const auto square = [](std::vector<double> v) {
    for (double &x : v) x *= x;
    return v;
  };
  auto [mx, my] = dedup_avg(square(PIMINUSP_RES_SQRTS), std::vector<double>(PIMINUSP_RES_SIG));
  std::vector<double> kx;
  for (double x : KMINUSP_RES_SQRTS) kx.push_back(plab(x * x, mK, mN));
  const InterpolateDataSpline pres(square(PIPLUSP_RES_SQRTS), PIPLUSP_RES_SIG), mres(mx, my), kres(kx, KMINUSP_RES_SIG);
  for (int n = 0; n < h::tier(6000); n++) {
    {
      const double r = near(rng, {1.4, 1.5, 2.2, 1.8, 1.97, 2., 4., 5.}, mpi + mN + 1e-4, 20.), s = r * r, p = plab(s, mpi, mN);
      const double last = *(PIPLUSP_TOT_SQRTS.end() - 1), lastm = *(PIMINUSP_TOT_SQRTS.end() - 1);
      same("piplusp_total", r, piplusp_total(r), r < last ? std::max(0., ppt(r)) : regge(s, .939, .138, 18.75, 9.56, 1.767, -1));
      same("piminusp_total", r, piminusp_total(r), r < lastm ? pmt(r) : regge(s, .939, .138, 18.75, 9.56, 1.767, 1));
      double e = s < 2.25 ? 1e-6 : s > 4.84 ? hera(p, 0, 11.4, -.4, .079, 0) : ppe(p);
      e -= pres(s);
      if (std::abs(s - 2.25) > 1e-7 && std::abs(s - 4.84) > 1e-7) same("piplusp_elastic", r, piplusp_elastic(s), e < 0 ? 1e-6 : e, 1e-7);
      e = s < 1.69 ? 1e-6 : s > 4.84 ? hera(p, 1.76, 11.2, -.64, .043, 0) : pme(p);
      if (s > 3.24 && s < 3.8809) e *= .88 + .12 * std::cos(2 * M_PI * (r - 1.8) / .17);
      e -= mres(s);
      if (std::abs(s - 1.69) > 1e-7 && std::abs(s - 4.84) > 1e-7) same("piminusp_elastic", r, piminusp_elastic(s), e < 0 ? 1e-6 : e, 1e-7);
      same("piplusp_sigmapluskplus", r, piplusp_sigmapluskplus_pdg(s), spk(p), 1e-8);
      same("piminusp_lambdak0", r, piminusp_lambdak0_pdg(s), lk(p), 1e-8);
      same("piminusp_sigmaminuskplus", r, piminusp_sigmaminuskplus_pdg(s), smk(p), 1e-8);
      same("piminusp_sigma0k0", r, piminusp_sigma0k0_res(s), s0k(r), 1e-8);
      for (double v : {piplusp_elastic(s), piminusp_elastic(s), piplusp_total(r), piminusp_total(r), pipluspiminus_total(r), pizeropizero_total(r)})
        if (!(v >= 0 && std::isfinite(v))) h::fail("values/sign", "%g at %.9g of %g %g %g %g", v, r, piplusp_elastic(s), piminusp_elastic(s), piplusp_total(r), piminusp_total(r));
    }
    {
      const double r = near(rng, {1., 1.2, 1.4}, 2 * mpi, 20.);
      const double lastp = *(PIPLUSPIMINUS_TOT_SQRTS.end() - 1), last0 = *(PIZEROPIZERO_TOT_SQRTS.end() - 1);
      const double hard = r < 2.3 ? 0 : .013 * std::pow(std::log(r / 2.3), 4.7);
      same("pipluspiminus_total", r, pipluspiminus_total(r), r < lastp ? pipm(r) : hard, 1e-7);
      same("pizeropizero_total", r, pizeropizero_total(r), r < last0 ? pi00(r) : hard, 1e-7);
    }
    {
      const double r = near(rng, {1.68, 1.5}, mK + mN + 1e-4, 8.), s = r * r, p = plab(s, mK, mN);
      const double kp = (10.508 - 3.716 * p + 1.845 * p * p) / (1 - .764 * p + .508 * p * p);
      same("kplusp_total", r, kplusp_total(s), kpp(p), 1e-8);
      same("kplusn_total", r, kplusn_total(s), kpn(p), 1e-8);
      same("kminusp_total", r, kminusp_total(s), kmp(p), 1e-8);
      same("kminusn_total", r, kminusn_total(s), kmn(p), 1e-8);
      same("kplusp_inelastic", r, kplusp_inelastic_background(s), kpp(p) - kp, 1e-7);
      same("kplusn_inelastic", r, kplusn_inelastic_background(s), kpn(p) - kp / 2, 1e-7);
      const double e = r < 1.68 ? 186.03567644 / s * std::pow(.22002795 * .22002795 / (.22002795 * .22002795 + p * p), .64907116) : kme(p);
      if (std::abs(r - 1.68) > 1e-7) same("kminusp_elastic", r, kminusp_elastic_background(s), e - kres(p), 1e-7);
    }
  }
  // the smoothed curves stay with the data
  int k = 0;
  for (const Curve *c : {&pipm, &ppt, &pmt, &kpp, &kpn, &kmn}) {
    k++;
    for (size_t i = 0; i < c->x.size(); i++) {
      double lo = 1e99, hi = 0;
      for (size_t j = 0; j < c->rawx.size(); j++)
        if (std::abs(c->rawx[j] - c->x[i]) < .15 * c->x[i]) {
          lo = std::min(lo, c->rawy[j]);
          hi = std::max(hi, c->rawy[j]);
        }
      if (c->y[i] < .7 * lo - .5 || c->y[i] > 1.3 * hi + .5) h::fail("values/smooth", "curve %d: %g at %g, data from %g to %g", k, c->y[i], c->x[i], lo, hi);
    }
  }
}
h::Reg r3("data", data);

/// the total photon cross sections are the integrals of the differential ones
using X = CrosssectionsPhoton<ComputationMethod::Analytic>;
struct Channel {
  const char *name;
  double (*total)(double, double);
  double (*diff)(double, double, double);
  bool in;  // the rho comes in
};
const std::vector<Channel> channels{{"pi_pi_rho0", X::xs_pi_pi_rho0, X::xs_diff_pi_pi_rho0, false},
                                    {"pi_pi0_rho", X::xs_pi_pi0_rho, X::xs_diff_pi_pi0_rho, false},
                                    {"pi0_rho0_pi0", X::xs_pi0_rho0_pi0, X::xs_diff_pi0_rho0_pi0, true},
                                    {"pi_rho0_pi", X::xs_pi_rho0_pi, X::xs_diff_pi_rho0_pi, true},
                                    {"pi_rho_pi0_rho", X::xs_pi_rho_pi0_rho_mediated, X::xs_diff_pi_rho_pi0_rho_mediated, true},
                                    {"pi_rho_pi0_omega", X::xs_pi_rho_pi0_omega_mediated, X::xs_diff_pi_rho_pi0_omega_mediated, true},
                                    {"pi0_rho_pi_rho", X::xs_pi0_rho_pi_rho_mediated, X::xs_diff_pi0_rho_pi_rho_mediated, true},
                                    {"pi0_rho_pi_omega", X::xs_pi0_rho_pi_omega_mediated, X::xs_diff_pi0_rho_pi_omega_mediated, true}};
void photons(h::Rng &rng) {
  for (int n = 0; n < h::tier(800); n++) {
    const Channel &c = channels[size_t(n) % channels.size()];
    const double m = h::chance(rng, .3) ? .776 : h::uni(rng, .3, 1.4);
    const double thr = c.in ? mpi + m : std::max(2 * mpi, m), r = thr + (h::chance(rng, .5) ? h::uni(rng, .02, .5) : h::uni(rng, .02, 3.)), s = r * r;
    h::at("%s sqrt(s) %.12g m_rho %.12g", c.name, r, m);
    // momentum transfer between the first pion and the massive particle that goes out
    const double m1 = mpi, m2 = c.in ? m : mpi, m3 = c.in ? mpi : m;
    const double E1 = (s + m1 * m1 - m2 * m2) / (2 * r), p1 = std::sqrt(E1 * E1 - m1 * m1), E3 = (s + m3 * m3) / (2 * r), p3 = std::sqrt(std::max(0., E3 * E3 - m3 * m3));
    const double a = std::pow(E1 - E3, 2) - std::pow(p1 + p3, 2), b = std::pow(E1 - E3, 2) - std::pow(p1 - p3, 2);
    const int N = h::tier(4000, 3);
    double sum = 0, most = 0, least = 0;
    bool cut = false;
    // Gauss-Legendre with two points per interval
    for (int i = 0; i < N; i++)
      for (int k = -1; k <= 1; k += 2) {
        const double d = c.diff(s, a + (b - a) * (i + .5 + k / (2 * std::sqrt(3.))) / N, m);
        sum += d / 2;
        most = std::max(most, d);
        least = std::min(least, d);
        cut |= d >= 199.999;
      }
    sum *= (b - a) / N;
    const double total = c.total(s, m);
    if (!std::isfinite(total) || !std::isfinite(sum)) {
      h::fail(std::string("photons/finite/") + c.name, "total %g, integral %g", total, sum);
      continue;
    }
    if (total > 200 + 1e-9 || most > 200 + 1e-9) h::fail(std::string("photons/cut/") + c.name, "beyond 200 mb: %g %g", total, most);
    if (cut || total > 199) {
      h::count("beyond the cut-off");
      continue;
    }
    if (!h::close(total, sum, 2e-4, 1e-6 + 2e-4 * std::abs(least) * (b - a))) h::fail(std::string("photons/integral/") + c.name, "total %.9g, integral %.9g", total, sum);
    if (total < -1e-6) h::fail(std::string("photons/sign/") + c.name, "total %g", total);
    h::evaluated(h::current);
    h::count(c.name);
    if (c.in) {
      const double x = X::xs_pi_rho_pi0_rho_mediated(s, m) + X::xs_pi_rho_pi0_omega_mediated(s, m), y = X::xs_pi0_rho_pi_rho_mediated(s, m) + X::xs_pi0_rho_pi_omega_mediated(s, m);
      if (x < 199 && !h::close(X::xs_pi_rho_pi0(s, m), x, 1e-6, 1e-9)) h::fail("photons/sum/pi_rho_pi0", "%g instead of %g", X::xs_pi_rho_pi0(s, m), x);
      if (y < 199 && !h::close(X::xs_pi0_rho_pi(s, m), y, 1e-6, 1e-9)) h::fail("photons/sum/pi0_rho_pi", "%g instead of %g", X::xs_pi0_rho_pi(s, m), y);
    }
  }
  for (double x : {-3., 0., 5., 200., 200.001, 1e9})
    if (cut_off(x) != std::min(x, 200.)) h::fail("photons/cut_off", "%g", x);
}
h::Reg r4("photons", photons);
}  // namespace
HARNESS_MAIN
