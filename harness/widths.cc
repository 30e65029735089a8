// Widths, spectral functions and the sampling of resonance masses against their definitions.
#include "h.h"
#include "smash/constants.h"
#include "smash/decaytype.h"
#include "smash/kinematics.h"
#include "smash/particles.h"
#include "smash/quantumnumbers.h"
#include "smashenv.h"

using namespace smash;

namespace {
constexpr int PARTS = 8;
double pcm(double s, double a, double b) {
  const long double S = (long double)s * s, p = (long double)(a + b) * (a + b), q = (long double)(a - b) * (a - b);
  return S <= p ? 0. : double(std::sqrt((S - p) * (S - q)) / (2 * (long double)s));
}
double bw2(double p, int L) {
  const double y = std::pow(p / 0.197327053, 2);
  switch (L) {
    case 0: return 1;
    case 1: return y / (1 + y);
    case 2: return y * y / (9 + 3 * y + y * y);
    case 3: return y * y * y / (225 + 45 * y + 6 * y * y + y * y * y);
    case 4: return std::pow(y, 4) / (11025 + 1575 * y + 135 * y * y + 10 * y * y * y + std::pow(y, 4));
    default: return std::pow(y, 5) / (893025 + 99225 * y + 6300 * y * y + 315 * y * y * y + 15 * std::pow(y, 4) + std::pow(y, 5));
  }
}
/// integral of f over [a, b] with the peak of a resonance at m
template <class F>
double integral(double a, double b, double m, double w, int n, F f) {
  if (!(b > a)) return 0;
  const double lo = std::atan((a - m) / w), hi = std::isinf(b) ? M_PI / 2 : std::atan((b - m) / w);
  double s = 0;
  // dense at both ends, where phase space begins
  for (int i = 0; i < n; i++) {
    const double u = (i + .5) / n, v = u * u * (3 - 2 * u), jac = 6 * u * (1 - u);
    const double x = lo + (hi - lo) * v, t = std::tan(x);
    s += f(m + w * t) * w * (1 + t * t) * (hi - lo) * jac;
  }
  return s / n;
}
double expected_shape(const ParticleType &t, double m, double w) {
  const double M = t.mass();
  return 2 / M_PI * m * m * w / (std::pow(m * m - M * M, 2) + m * m * w * w);
}
std::vector<const ParticleType *> chosen(h::Rng &rng, size_t part, int most) {
  std::vector<const ParticleType *> v;
  size_t k = 0;
  for (const auto &t : ParticleType::list_all())
    if (!t.is_stable() && t.antiparticle_sign() > 0 && k++ % PARTS == part) v.push_back(std::addressof(t));
  std::shuffle(v.begin(), v.end(), rng);
  if (!h::thorough && int(v.size()) > most) v.resize(size_t(most));
  return v;
}
double lowest(const ParticleTypePtr t) { return t->min_mass_kinematic(); }
/// phase space with Blatt-Weisskopf factor, averaged over the masses of the daughters
double rho(const DecayBranch &b, double m) {
  const auto &d = b.particle_types();
  const int L = b.angular_momentum();
  auto f = [&](double a, double c) { return m <= a + c ? 0. : pcm(m, a, c) / m * bw2(pcm(m, a, c), L); };
  const ParticleTypePtr x = d[0]->is_stable() ? d[1] : d[0], y = d[0]->is_stable() ? d[0] : d[1];
  if (x->is_stable()) return f(x->mass(), y->mass());
  if (y->is_stable())
    return integral(lowest(x), m - y->mass(), x->mass(), x->width_at_pole(), 1500, [&](double k) { return f(k, y->mass()) * x->spectral_function(k); });
  // tables of the spectral functions, since every pair of masses is needed
  const int n = 160;
  return integral(lowest(x), m - lowest(y), x->mass(), x->width_at_pole(), n, [&](double k) {
    return x->spectral_function(k) * integral(lowest(y), m - k, y->mass(), y->width_at_pole(), n, [&](double l) { return f(k, l) * y->spectral_function(l); });
  });
}
double cutoff(const DecayBranch &b) {
  const auto &d = b.particle_types();
  if (!d[0]->is_stable() && !d[1]->is_stable()) return .6;
  const ParticleTypePtr x = d[0]->is_stable() ? d[1] : d[0], y = d[0]->is_stable() ? d[0] : d[1];
  if (x->baryon_number() != 0) return 2.;
  if (x->is_rho() && y->is_pion()) return .8;
  return 1.6;
}
double post(double m, double M, double s0, double L) {
  const double l4 = std::pow(L, 4), ff = (l4 + std::pow((s0 * s0 - M * M) / 2, 2)) / (l4 + std::pow(m * m - (s0 * s0 + M * M) / 2, 2));
  return ff * ff;
}
bool dilepton(const DecayBranch &b) {
  int n = 0;
  for (auto d : b.particle_types()) n += d->is_lepton();
  return n > 0;
}

void partial(h::Rng &rng, size_t part) {
  h::load_full();
  for (const ParticleType *t : chosen(rng, part, 12)) {
    const auto &modes = t->decay_modes().decay_mode_list();
    const double M = t->mass(), G = t->width_at_pole();
    const ParticleTypePtr tp = t->operator&();
    for (int k = h::tier(6, 4); k > 0; k--) {
      const double m = h::chance(rng, .15) ? M : h::chance(rng, .3) ? h::uni(rng, t->min_mass_kinematic() - .1, t->min_mass_kinematic() + .2) : h::uni(rng, std::max(.01, t->min_mass_kinematic()), M + 5 * G);
      if (m <= 0.001) continue;
      h::at("%s at %.9g", t->name().c_str(), m);
      double sum = 0;
      for (auto &b : modes) {
        const double w = t->partial_width(m, b.get());
        sum += w;
        if (!(w >= 0)) h::fail("negative", "partial width %g", w);
        if (m < b->threshold() && w != 0) h::fail("threshold", "partial width %g below the threshold", w);
        const bool dil = dilepton(*b), three = b->particle_types().size() == 3;
        if (m == M && !(dil && three) && !h::close(w, G * b->weight(), 1e-9)) h::fail("pole", "partial width %g at the pole, expected %g", w, G * b->weight());
        if (m > b->threshold() && three && !dil && !h::close(w, G * b->weight(), 1e-9)) h::fail("three", "width %g of three-body decay", w);
        if (!three && dil && m > b->threshold()) {
          const double ml = b->particle_types()[0]->mass(), x = ml * ml / m / m;
          const double want = G * b->weight() * std::pow(M / m, 3) * std::sqrt(1 - 4 * x) * (1 + 2 * x);
          if (!h::close(w, want, 1e-9)) h::fail("dilepton", "dilepton width %g, expected %g", w, want);
        }
        if (h::chance(rng, .3) && m > b->threshold() + .03 && !three && !dil && m != M) {
          const auto &d = b->particle_types();
          const int broad = !d[0]->is_stable() + !d[1]->is_stable();
          if (broad == 2 && !h::chance(rng, .6)) continue;
          double range = 2;
          double s = 0;
          for (auto x : d) s += 10 * (x->is_stable() ? 0 : x->width_at_pole());
          range = std::max(range, s);
          if (broad && (std::max(m, M) + .03 > b->threshold() + range)) continue;
          // the tables are interpolated between points 10 MeV apart or a little more
          const double step = broad ? range / 199 : 0;
          auto span = [&](double x) {
            const double a = rho(*b, x), c = broad ? rho(*b, x - step) : a, e = broad ? rho(*b, x + step) : a;
            return std::make_pair(std::min({a, c, e}), std::max({a, c, e}));
          };
          const auto num = span(m), den = span(M);
          double ff = 1;
          if (broad) {
            double s0 = 0;
            for (auto x : d) s0 += x->min_mass_spectral();
            ff = post(m, M, s0, cutoff(*b));
          }
          const double tol = broad == 2 ? .03 : broad ? .01 : 1e-7, f = G * b->weight() * ff;
          const double lo = f * num.first / den.second * (1 - tol), hi = f * num.second / std::max(den.first, 1e-300) * (1 + tol);
          // the integrals of the library are good to a part in a thousand or 1e-9
          const double slack = broad ? f * 3e-9 / std::max(den.first, 1e-300) * (1 + num.second / std::max(den.first, 1e-300)) : 0;
          if (w < lo - slack || w > hi + slack) h::fail("width", "width %.9g into %s %s (L=%d), expected %.9g to %.9g", w, d[0]->name().c_str(), d[1]->name().c_str(), b->angular_momentum(), lo, hi);
          h::count(broad == 2 ? "widths with two resonances" : broad ? "widths with a resonance" : "widths");
          // a resonance formed from daughters of given masses
          if (broad && m > M * .5) {
            double ma = d[0]->mass(), mb = d[1]->mass();
            for (int i = 0; i < 2; i++)
              if (!d[size_t(i)]->is_stable()) (i ? mb : ma) = h::uni(rng, d[size_t(i)]->min_mass_spectral(), d[size_t(i)]->min_mass_spectral() + .8 * (m - b->threshold()) / broad);
            if (ma + mb < m) {
              ParticleData pa(*d[0]), pb(*d[1]);
              pa.set_4momentum(ma, h::uni(rng, -1, 1), 0, h::uni(rng, -1, 1));
              pb.set_4momentum(mb, h::uni(rng, -1, 1), h::uni(rng, -1, 1), 0);
              int same = 0;
              for (auto &o : modes) same += o->type().has_particles({d[0], d[1]});
              const double q = pcm(m, pa.effective_mass(), pb.effective_mass());
              const double top = f * q / m * bw2(q, b->angular_momentum());
              const double in = t->get_partial_in_width(m, pa, pb), in2 = t->get_partial_in_width(m, pb, pa);
              if (same == 1) {
                if (in < top / den.second * (1 - tol) - slack || in > top / den.first * (1 + tol) + slack) h::fail("formation", "in-width %.9g, expected %.9g to %.9g", in, top / den.second, top / den.first);
                if (!h::close(in, in2, 1e-9)) h::fail("formation", "in-width %.9g, but %.9g with the particles exchanged", in, in2);
                h::count("formations");
              }
            }
          }
        }
      }
      const double total = t->total_width(m);
      if (!h::close(total, sum < ParticleType::width_cutoff ? 0 : sum, 1e-9)) h::fail("total", "total width %.12g, but the partial ones add up to %.12g", total, sum);
      // the particle and its antiparticle
      if (t->has_antiparticle()) {
        const auto a = t->get_antiparticle();
        if (!h::close(a->total_width(m), total, 1e-3, 1e-7)) h::fail("antiparticle", "width %.9g, but %.9g of the antiparticle", total, a->total_width(m));
      }
      // widths for a moving particle without potentials
      const double px = h::uni(rng, -3, 3), pz = h::uni(rng, -3, 3);
      const FourVector p(std::sqrt(m * m + px * px + pz * pz), px, 0, pz);
      double all = 0, had = 0, lep = 0;
      auto add = [&](WhichDecaymodes w, double &s) {
        for (auto &b : t->get_partial_widths(p, ThreeVector(1, 2, 3), w)) {
          if (!(b->weight() > 0)) h::fail("negative", "weight %g in the list of widths", b->weight());
          if (w == WhichDecaymodes::Dileptons && !b->type().is_dilepton_decay()) h::fail("selection", "a hadronic mode among the dileptons");
          if (w == WhichDecaymodes::Hadronic && b->type().is_dilepton_decay()) h::fail("selection", "a dilepton mode among the hadrons");
          s += b->weight();
        }
      };
      add(WhichDecaymodes::All, all), add(WhichDecaymodes::Hadronic, had), add(WhichDecaymodes::Dileptons, lep);
      if (!h::close(all, sum, 1e-3, 1e-7) || !h::close(all, had + lep, 1e-9, 1e-12)) h::fail("selection", "all widths %.9g, hadronic %.9g, dileptons %.9g, sum of partial widths %.9g", all, had, lep, sum);
      if (!modes.empty()) {
        const auto &b = h::pick(rng, modes);
        double want = 0;
        for (auto &o : modes)
          if (o->type().has_particles(b->particle_types())) want += o->type().width(M, G * o->weight(), m);
        if (!h::close(t->get_partial_width(m, b->particle_types()), want, 1e-9)) h::fail("selection", "partial width by daughters");
      }
      h::evaluated(t->name() + std::to_string(int(m * 10)));
      (void)tp;
    }
  }
}

void spectral(h::Rng &rng, size_t part) {
  h::load_full();
  for (const ParticleType *t : chosen(rng, part, 14)) {
    const double M = t->mass(), G = t->width_at_pole(), low = t->min_mass_kinematic();
    h::at("%s", t->name().c_str());
    for (int k = h::tier(60); k > 0; k--) {
      const double m = h::chance(rng, .3) ? h::uni(rng, std::max(1e-3, low - .2), low + .1) : h::uni(rng, std::max(1e-3, low), M + 10 * G);
      const double w = t->total_width(m), nn = t->spectral_function_no_norm(m), a = t->spectral_function(m);
      if (!(a >= 0)) h::fail("negative", "spectral function %g at %g", a, m);
      if (m < low && a != 0) h::fail("threshold", "spectral function %g at %g below the lowest mass %g", a, m, low);
      const double want = w < ParticleType::width_cutoff ? 0 : expected_shape(*t, m, w);
      if (!h::close(nn, want, 1e-9)) h::fail("shape", "spectral function %g at %g, expected %g", nn, m, want);
      if (!h::close(t->spectral_function_const_width(m), expected_shape(*t, m, G), 1e-9)) h::fail("shape", "spectral function of constant width at %g", m);
      if (!h::close(t->spectral_function_simple(m), G / 2 / M_PI / (std::pow(m - M, 2) + G * G / 4), 1e-9)) h::fail("shape", "simple spectral function at %g", m);
      h::evaluated(t->name() + std::to_string(int(m * 100)));
    }
    const double a = t->spectral_function(M), n = t->spectral_function_no_norm(M);
    if (!(n > 0)) {
      h::fail("shape", "no spectral function at the pole");
      continue;
    }
    const double norm = a / n * integral(low, INFINITY, M, G, 6000, [&](double m) { return t->spectral_function_no_norm(m); });
    if (std::fabs(norm - 1) > 4e-3) h::fail("norm", "the spectral function is normalised to %.6g", norm);
    for (double m : {low + .05, M - G / 3, M + G})
      if (!h::close(t->spectral_function(m) * n, t->spectral_function_no_norm(m) * a, 1e-9, 1e-12)) h::fail("norm", "the norm depends on the mass %g", m);
    const double ms = t->min_mass_spectral();
    if (ms < low - 1e-12 || ms > M) h::fail("lowest", "spectral function from %g, kinematics from %g", ms, low);
    if (ms > low && t->spectral_function(ms) < 1e-6) h::fail("lowest", "spectral function %g at its lowest mass %g", t->spectral_function(ms), ms);
    if (ms > low + 3e-6 && t->spectral_function(ms - 3e-6) > 1e-6) h::fail("lowest", "spectral function %g below its lowest mass %g", t->spectral_function(ms - 3e-6), ms);
    h::count("spectral functions");
  }
}

/// largest distance of the sample from a distribution given as weights on a grid
double distance(std::vector<double> s, const std::vector<double> &x, const std::vector<double> &w) {
  std::sort(s.begin(), s.end());
  double total = 0, acc = 0, worst = 0;
  for (double v : w) total += v;
  size_t k = 0;
  for (size_t i = 0; i < x.size(); i++) {
    acc += w[i];  // of everything up to the right edge of cell i
    const double edge = i + 1 < x.size() ? (x[i] + x[i + 1]) / 2 : INFINITY;
    while (k < s.size() && s[k] <= edge) k++;
    worst = std::max(worst, std::fabs(double(k) / double(s.size()) - acc / total));
  }
  return worst;
}

void sampling(h::Rng &rng, size_t part) {
  h::load_full();
  random::set_seed(int64_t(rng() >> 2));
  const auto v = chosen(rng, part, 40);
  const int N = h::tier(6000, 5);
  auto bound = [](size_t n) { return 5. / std::sqrt(double(n)); };  // far beyond 1e-15
  for (int k = h::tier(5, 20); k > 0; k--) {
    const ParticleType *t = h::pick(rng, v);
    const int L = h::chance(rng, .5) ? 0 : 1;
    const double low = t->min_mass_spectral();
    const double ms = h::chance(rng, .5) ? .938 : h::chance(rng, .5) ? .138 : h::uni(rng, .0, 1.5);
    const double top = h::uni(rng, .15, 1.6);
    const double s = std::max(low, t->mass() - 2 * t->width_at_pole()) + ms + top * (h::chance(rng, .2) ? .3 : 1);
    h::at("%s with a stable mass %.9g at %.9g GeV, L=%d", t->name().c_str(), ms, s, L);
    for (int i = 0; i < N / 4; i++) t->sample_resonance_mass(ms, s, L);
    std::vector<double> got;
    for (int i = 0; i < N; i++) {
      const double m = t->sample_resonance_mass(ms, s, L);
      if (!(m >= low && m <= s - ms)) h::fail("range", "mass %.9g, expected %.9g to %.9g", m, low, s - ms);
      got.push_back(m);
    }
    std::vector<double> x, w;
    const int n = 20000;
    for (int i = 0; i < n; i++) {
      const double m = low + (s - ms - low) * (i + .5) / n, p = pcm(s, m, ms);
      x.push_back(m);
      w.push_back(t->spectral_function(m) * p * bw2(p, L));
    }
    const double d = distance(got, x, w);
    if (d > bound(got.size())) h::fail("mass", "the masses are distributed otherwise: distance %.4g of %d samples", d, N);
    h::count("sampled masses", N);
    h::evaluated(t->name() + std::to_string(L));
    h::sample("%s with %.3f at %.3f: distance %.4f of %d samples", t->name().c_str(), ms, s, d, N);
  }
  for (int k = h::tier(3, 10); k > 0; k--) {
    const ParticleType *a = h::pick(rng, v), *b = h::pick(rng, v);
    const double s = std::max(a->min_mass_spectral(), a->mass() - a->width_at_pole()) + std::max(b->min_mass_spectral(), b->mass() - b->width_at_pole()) + h::uni(rng, .2, 1.5);
    const int L = h::chance(rng, .6) ? 0 : 1, n2 = N / 2;
    h::at("%s and %s at %.9g GeV, L=%d", a->name().c_str(), b->name().c_str(), s, L);
    for (int i = 0; i < n2 / 2; i++) a->sample_resonance_masses(*b, s, L);
    std::vector<double> ga, gb;
    for (int i = 0; i < n2; i++) {
      const auto m = a->sample_resonance_masses(*b, s, L);
      if (!(m.first >= a->min_mass_spectral() && m.second >= b->min_mass_spectral() && m.first + m.second <= s)) h::fail("range", "masses %.9g and %.9g", m.first, m.second);
      ga.push_back(m.first), gb.push_back(m.second);
    }
    const int n = 900;
    const double la = a->min_mass_spectral(), lb = b->min_mass_spectral(), range = s - la - lb;
    std::vector<double> xa, xb, wa(n, 0.), wb(n, 0.), fa, fb;
    for (int i = 0; i < n; i++) {
      xa.push_back(la + range * (i + .5) / n), xb.push_back(lb + range * (i + .5) / n);
      // averaged over the cell
      double ya = 0, yb = 0;
      for (int j = 0; j < 10; j++) ya += a->spectral_function(la + range * (i + (j + .5) / 10) / n), yb += b->spectral_function(lb + range * (i + (j + .5) / 10) / n);
      fa.push_back(ya), fb.push_back(yb);
    }
    for (int i = 0; i < n; i++)
      for (int j = 0; i + j < n; j++) {
        const double p = pcm(s, xa[size_t(i)], xb[size_t(j)]), f = fa[size_t(i)] * fb[size_t(j)] * p * bw2(p, L);
        wa[size_t(i)] += f, wb[size_t(j)] += f;
      }
    const double da = distance(ga, xa, wa), db = distance(gb, xb, wb);
    if (std::max(da, db) > bound(ga.size()) + .004) h::fail("masses", "the masses are distributed otherwise: distances %.4g and %.4g of %d samples", da, db, n2);
    h::count("sampled pairs", n2);
    h::evaluated(a->name() + b->name());
  }
}
}  // namespace

#define PART(n)                                  \
  SECTION(partial##n) { partial(rng, n); }       \
  SECTION(spectral##n) { spectral(rng, n); }     \
  SECTION(sampling##n) { sampling(rng, n); }
PART(0) PART(1) PART(2) PART(3) PART(4) PART(5) PART(6) PART(7)
HARNESS_MAIN
