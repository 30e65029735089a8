// R32: decays are found at the rate given by the widths; dileptons are radiated perturbatively
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "smash/constants.h"
#include "smash/decayaction.h"
#include "smash/decayactiondilepton.h"
#include "smash/decayactionsfinder.h"
#include "smash/decayactionsfinderdilepton.h"
#include "smash/decaymodes.h"
#include "smash/decaytype.h"
#include "smash/outputinterface.h"
#include "smash/particles.h"
#include "smash/pdgcode_constants.h"

#include "h.h"
#include "smashenv.h"
#include "stat.h"
using namespace smash;
namespace {
/// whether there is a pair of a lepton and its antilepton
bool leptonic(const ParticleTypePtrList &l) {
  for (auto a : l)
    for (auto b : l)
      if (a->is_lepton() && a->pdgcode().get_decimal() == -b->pdgcode().get_decimal()) return true;
  return false;
}
struct Width {
  double hadronic = 0, all = 0;
  int nhad = 0, n = 0;
  std::map<std::string, double> modes;
};
std::string key(std::vector<int> v) {
  std::sort(v.begin(), v.end());
  std::string s;
  for (int i : v) s += std::to_string(i) + " ";
  return s;
}
std::string key(const ParticleTypePtrList &l) {
  std::vector<int> v;
  for (auto t : l) v.push_back(t->pdgcode().get_decimal());
  return key(v);
}
std::string key(const ParticleList &l) {
  std::vector<int> v;
  for (auto &p : l) v.push_back(p.pdgcode().get_decimal());
  return key(v);
}
Width widths(const ParticleData &p) {
  Width w;
  const double m = p.momentum().abs();
  for (auto &b : p.type().decay_modes().decay_mode_list()) {
    const double x = p.type().partial_width(m, b.get());
    if (!(x > 0)) continue;
    w.all += x;
    w.n++;
    w.modes[key(b->particle_types())] += x;
    if (leptonic(b->particle_types())) continue;
    w.hadronic += x;
    w.nhad++;
  }
  return w;
}
ParticleData make(h::Rng &rng, const ParticleType &t, double spread = 3) {
  ParticleData p(t);
  double m = t.mass();
  if (!t.is_stable() && h::chance(rng, .8)) m = h::uni(rng, t.min_mass_kinematic() + .01, t.mass() + spread * t.width_at_pole());
  const double k = h::chance(rng, .2) ? 0 : h::chance(rng, .5) ? .3 : 3;
  p.set_4momentum(m, h::uni(rng, -k, k), h::uni(rng, -k, k), h::uni(rng, -k, k));
  p.set_4position(FourVector(h::uni(rng, -3, 30), h::uni(rng, -9, 9), h::uni(rng, -9, 9), h::uni(rng, -9, 9)));
  p.set_formation_time(p.position().x0());
  return p;
}
bool same(const ParticleData &a, const ParticleData &b) {
  return a.id() == b.id() && a.type() == b.type() && a.momentum().x0() == b.momentum().x0() && a.momentum().x1() == b.momentum().x1() && a.momentum().x3() == b.momentum().x3() && a.position() == b.position() &&
         a.id_process() == b.id_process() && a.xsec_scaling_factor() == b.xsec_scaling_factor();
}

void finder(h::Rng &rng) {
  h::load_mid();
  random::set_seed(int64_t(rng() >> 2));
  std::vector<const ParticleType *> res, stable;
  for (const ParticleType &t : ParticleType::list_all()) (t.is_stable() ? stable : res).push_back(std::addressof(t));
  const int rounds = h::tier(60, 12), N = 4000;
  const std::vector<FourVector> none;
  for (int n = 0; n < rounds; n++) {
    const ParticleType &t = *res[size_t(n) % res.size()];
    ParticleData p = make(rng, t);
    const Width w = widths(p);
    if (w.hadronic <= 0) continue;
    const double factor = h::chance(rng, .4) ? 1 : h::uni(rng, .2, 5);
    const double gamma = p.momentum().x0() / p.momentum().abs(), tau = factor * gamma * hbarc / w.hadronic;
    double delay = 0;
    const double xs = h::chance(rng, .5) ? 1 : h::chance(rng, .3) ? 0 : h::uni(rng, 0, 1);
    const double t0 = p.position().x0();
    if (h::chance(rng, .5)) {
      // not formed: nothing happens before it is
      p.set_slow_formation_times(t0 - .1, t0 + h::uni(rng, 0, 3) * std::min(tau, 3.));
      p.set_cross_section_scaling_factor(xs);
      if (xs < 1) delay = p.formation_time() - t0;
    }
    const double dt = h::chance(rng, .2) ? 1e9 : delay * h::uni(rng, .8, 2) + tau * h::uni(rng, .05, 3);
    const bool initial = h::chance(rng, .5);
    const int ncoll = h::below(rng, 3);
    p.set_history(ncoll, 5, ProcessType::Elastic, t0 - 1, ParticleList{});
    if (ncoll == 0 && !initial) h::count("initial particles that may not decay");
    h::at("%s mass %.9g tau %.6g delay %.6g dt %.6g factor %.4g", t.name().c_str(), p.momentum().abs(), tau, delay, dt, factor);
    const DecayActionsFinder f(factor, h::chance(rng, .5), h::chance(rng, .5), SpinInteractionType::Off, initial);
    ParticleList list;
    for (int i = 0; i < N; i++) {
      ParticleData q = p;
      q.set_id(i);
      list.push_back(q);
    }
    // stable particles among them are left alone
    for (int i = 0; i < 20; i++) {
      ParticleData q = make(rng, *h::pick(rng, stable));
      q.set_id(N + i);
      list.push_back(q);
    }
    ActionList found = f.find_actions_in_cell(list, dt, 1., none);
    if (!f.find_actions_with_neighbors(list, list, dt, none).empty()) h::fail("rate/neighbors", "decays from the search with neighbours");
    if (ncoll == 0 && !initial) {
      if (!found.empty()) h::fail("rate/initial", "%zu decays of particles which may not decay yet", found.size());
      h::evaluated(h::current);
      continue;
    }
    std::vector<char> seen(size_t(N), 0);
    std::vector<double> times;
    int bad = 0;
    std::map<std::string, long> outs;
    for (auto &a : found) {
      const ParticleList in = a->incoming_particles();
      if (in.size() != 1 || in[0].id() < 0 || in[0].id() >= N || !same(in[0], list[size_t(in[0].id())])) {
        if (!bad++) h::fail("rate/incoming", "a decay of something that was not there");
        continue;
      }
      if (seen[size_t(in[0].id())]++) h::fail("rate/twice", "two decays of one particle");
      const double time = a->time_of_execution() - t0;
      if (!(time >= delay - 1e-9 && time <= dt + 1e-9)) {
        if (!bad++) h::fail("rate/time", "a decay after %.9g, not between %.9g and %.9g", time, delay, dt);
        continue;
      }
      times.push_back(time - delay);
      if (!h::close(a->get_total_weight(), w.hadronic * xs, 1e-9) && !h::close(a->get_total_weight(), w.hadronic, 1e-9)) h::fail("rate/weight", "weight %.9g, width %.9g", a->get_total_weight(), w.hadronic);
    }
    const double room = dt - delay, P = room <= 0 ? 0 : -std::expm1(-room / tau), got = double(times.size());
    if (std::abs(got - N * P) > 5.5 * std::sqrt(N * P * (1 - P)) + 4) h::fail("rate/number", "%g decays of %d, expected %.2f", got, N, N * P);
    if (times.size() > 200) h::follows("rate/law", "decay times", times, [&](double x) { return x <= 0 ? 0. : x >= room ? 1. : -std::expm1(-x / tau) / P; }, 1e-9);
    // which mode: in proportion to the widths
    const size_t M = std::min<size_t>(found.size(), 300);
    for (size_t i = 0; i < M; i++) {
      found[i]->generate_final_state();
      const ParticleList o = found[i]->outgoing_particles();
      int leptons = 0;
      for (auto &q : o) leptons += q.type().is_lepton();
      if (leptons) h::fail("rate/leptons", "a resonance was removed by a dilepton decay");
      outs[key(o)]++;
    }
    double sum = 0;
    for (auto &o : outs) {
      auto it = w.modes.find(o.first);
      const double q = it == w.modes.end() ? 0 : it->second / w.hadronic, dev = std::abs(double(o.second) - double(M) * q);
      if (dev > 6 * std::sqrt(double(M) * q * std::max(1e-3, 1 - q)) + 8 || q == 0) h::fail("rate/branching", "%ld decays into %s of %zu, expected %.2f", o.second, o.first.c_str(), M, double(M) * q);
      sum += q;
    }
    if (M > 50 && sum < .6) h::fail("rate/branching", "the modes seen make %g of the width", sum);
    h::evaluated(h::current);
    h::count("decays found", (long long)found.size());
  }
}
h::Reg r1("finder", finder);

void final_decays(h::Rng &rng) {
  h::load_mid();
  random::set_seed(int64_t(rng() >> 2));
  for (int n = 0; n < h::tier(12); n++)
    for (int opt = 0; opt < 4; opt++) {
      const bool weak = opt & 1, wanted = opt & 2;
      const DecayActionsFinder f(h::uni(rng, .5, 2), weak, wanted, SpinInteractionType::Off, h::chance(rng, .5));
      Particles ps;
      std::map<int, ParticleData> all;
      std::map<int, bool> expect;
      for (const ParticleType &t : ParticleType::list_all()) {
        ParticleData p = make(rng, t);
        p.set_cross_section_scaling_factor(h::uni(rng, 0, 1));
        const ParticleData &q = ps.insert(p);
        all.emplace(q.id(), q);
        bool open = false;
        for (auto &b : t.decay_modes().decay_mode_list()) open |= b->weight() > 0;
        expect[q.id()] = wanted && open && (weak || !t.is_stable());
      }
      h::at("final decays, weak ones %d, wanted %d", weak, wanted);
      const ActionList found = f.find_final_actions(ps);
      size_t want = 0;
      for (auto &e : expect) want += e.second;
      for (auto &a : found) {
        const ParticleList in = a->incoming_particles();
        if (in.size() != 1 || !expect.count(in[0].id()) || !same(in[0], all.at(in[0].id()))) {
          h::fail("final/incoming", "a decay of something that was not there");
          continue;
        }
        const ParticleData &p = all.at(in[0].id());
        if (!expect[in[0].id()]) h::fail("final/unwanted", "a final decay of %s", p.type().name().c_str());
        expect[in[0].id()] = false;
        if (a->time_of_execution() != p.position().x0()) h::fail("final/time", "%s decays at %g, not at %g", p.type().name().c_str(), a->time_of_execution(), p.position().x0());
        const Width w = widths(p);
        if (!h::close(a->get_total_weight(), w.all, 1e-9, 1e-15)) h::fail("final/weight", "weight %.9g of the decay of %s, width %.9g", a->get_total_weight(), p.type().name().c_str(), w.all);
        h::evaluated(p.type().name() + std::to_string(opt));
      }
      if (found.size() != want) h::fail("final/number", "%zu decays instead of %zu", found.size(), want);
      h::count("final decays", (long long)found.size());
    }
}
h::Reg r2("final", final_decays);

// ------------------------------------------------------------------------------------------------
const double alpha = 7.2973525698e-3;
/// dGamma/dm of a Dalitz decay
double spectrum(const ParticleType &t, double M, double ml, double m, const ParticleType &other) {
  const double mo = other.mass();
  if (M < m + mo) return 0;
  const double x = ml * ml / m / m, ps = std::sqrt(std::max(0., 1 - 4 * x)) * (1 + 2 * x);
  const ParticleType &g = ParticleType::find(pdg::photon);
  const int code = std::abs(t.pdgcode().get_decimal());
  if (t.pdgcode().is_baryon()) {  // Krivoruchenko and Faessler, Phys. Rev. D 65, 017502
    const double a = (M + mo) * (M + mo), l1 = a - m * m, l2 = (M - mo) * (M - mo) - m * m;
    if (l2 < 0 || (code != 2214 && code != 2114)) return 0;
    const double vi = alpha / 16 * a / (std::pow(M, 3) * mo * mo) * std::sqrt(l1) * std::pow(l2, 1.5) * 3.12 * 3.12;
    return 2 * alpha / (3 * M_PI) * vi / m * ps;
  }
  if (t.spin() == 0) {
    const double G = t.get_partial_width(M, {&g, &g});
    const double ff = code == 111 ? 1 + 5.5 * m * m : code == 221 ? 1 / (1 - m * m / .716 / .716) : 1;
    return 4 * alpha / (3 * M_PI) * G / m * std::pow(1 - m * m / M / M, 3) * ff * ff * ps;
  }
  const double G = t.get_partial_width(M, {&other, &g});
  const double n1 = M * M - mo * mo, rad = std::pow(1 + m * m / n1, 2) - 4 * M * M * m * m / (n1 * n1);
  if (rad <= 0) return 0;
  const double L = .65 * .65, ff = code == 223 ? L * L / (std::pow(L - m * m, 2) + L * .075 * .075) : 1;
  return 2 * alpha / (3 * M_PI) * G / m * std::pow(rad, 1.5) * ff * ps;
}

struct Recorder : OutputInterface {
  struct Shot {
    ParticleList in, out;
    double weight, density;
  };
  std::vector<Shot> shots;
  explicit Recorder(const char *name) : OutputInterface(name) {}
  void at_interaction(const Action &a, const double d) override { shots.push_back({a.incoming_particles(), a.outgoing_particles(), a.get_total_weight(), d}); }
};
struct Emission {
  const DecayBranch *mode;
  double width;
};
std::vector<Emission> emissions(const ParticleData &p) {
  std::vector<Emission> v;
  for (auto &b : p.type().decay_modes().decay_mode_list()) {
    const double x = p.type().partial_width(p.momentum().abs(), b.get());
    if (x > 0 && leptonic(b->particle_types())) v.push_back({b.get(), x});
  }
  return v;
}
/// kinematics and weight of what was radiated, given the factor that multiplies the width of the mode
void judge(const Recorder::Shot &s, const ParticleData &p, double factor, double width) {
  FourVector sum, dil;
  int charge = 0, leptons = 0, lepton_charge = 0;
  const ParticleType *other = nullptr;
  double ml = 0;
  for (auto &q : s.out) {
    sum += q.momentum();
    charge += q.type().charge();
    if (q.type().is_lepton()) {
      dil += q.momentum();
      leptons++;
      lepton_charge += q.type().charge();
      ml = q.type().mass();
    } else {
      other = std::addressof(q.type());
    }
    const double E2 = q.momentum().x0() * q.momentum().x0();
    if (std::abs(q.momentum().sqr() - std::pow(q.type().mass(), 2)) > 1e-8 * (1 + E2)) h::fail("shine/shell", "%s with mass %g", q.type().name().c_str(), q.momentum().abs());
  }
  const FourVector d = sum - p.momentum();
  const double E = p.momentum().x0();
  if (std::abs(d.x0()) + std::abs(d.x1()) + std::abs(d.x2()) + std::abs(d.x3()) > 1e-7 * (1 + E)) h::fail("shine/conserve", "four-momentum off by %g %g %g %g", d.x0(), d.x1(), d.x2(), d.x3());
  if (charge != p.type().charge() || leptons != 2 || lepton_charge != 0) h::fail("shine/charge", "charge %d, %d leptons", charge, leptons);
  double want = factor * width;
  if (s.out.size() == 3 && other) {
    const double M = p.momentum().abs(), m = dil.abs();
    // the weight carries the ratio of the spectrum to the flat one the mass is sampled from
    if (m < 2.05 * ml || M - other->mass() - m < 1e-4) return;
    want = factor * spectrum(p.type(), M, ml, m, *other) * (M - other->mass() - 2 * ml);
  }
  if (!h::close(s.weight, want, 1e-5)) h::fail("shine/weight", "weight %.9g of %s -> %s, expected %.9g", s.weight, p.type().name().c_str(), key(s.out).c_str(), want);
}

void load_dilepton() {
  ParticleType::create_type_list(h::full_particles());
  DecayModes::load_decaymodes(h::slurp(h::repo() + "/input/dileptons/decaymodes.txt"));
  ParticleType::check_consistency();
}

void shine(h::Rng &rng) {
  load_dilepton();
  random::set_seed(int64_t(rng() >> 2));
  std::vector<const ParticleType *> bright, others;
  for (const ParticleType &t : ParticleType::list_all()) {
    if (t.pdgcode().is_heavy_flavor()) continue;  // semileptonic decays count as dileptons without a spectrum
    bool b = false;
    for (auto &m : t.decay_modes().decay_mode_list()) b |= leptonic(m->particle_types());
    if (b)
      bright.push_back(std::addressof(t));
    else if (t.is_stable() || t.mass() < 1.3)
      others.push_back(std::addressof(t));  // the tabulations of heavy ones take long
  }
  for (auto t : bright) h::sample("%s radiates dileptons", t->name().c_str());
  const DecayActionsFinderDilepton f;
  for (int n = 0; n < h::tier(400); n++) {
    Particles ps;
    std::map<int, ParticleData> all;
    const int N = h::range(rng, 0, 12);
    for (int i = 0; i < N; i++) {
      ParticleData p = make(rng, h::chance(rng, .8) ? *h::pick(rng, bright) : *h::pick(rng, others));
      if (h::chance(rng, .4)) p.set_cross_section_scaling_factor(h::chance(rng, .2) ? 0. : h::uni(rng, 0, 1));
      if (h::chance(rng, .15)) p.fluidize();
      const ParticleData &q = ps.insert(p);
      all.emplace(q.id(), q);
    }
    const int kind = n % 3;  // while it propagates; final, all; final, resonances only
    const double dt = h::chance(rng, .1) ? 0 : h::uni(rng, 0, 2);
    h::at("dileptons, kind %d, %d particles", kind, N);
    Recorder other("Particles"), photons("Photons"), rec("Dileptons");
    for (OutputInterface *o : std::vector<OutputInterface *>{&other, &photons, &rec}) {
      if (kind == 0) f.shine(ps, o, dt);
      if (kind == 1) f.shine_final(ps, o);
      if (kind == 2) f.shine_final(ps, o, true);
    }
    if (!other.shots.empty() || !photons.shots.empty()) h::fail("shine/output", "dileptons in another output");
    if (int(ps.size()) != N) h::fail("shine/perturbative", "%zu particles instead of %d", ps.size(), N);
    for (auto &p : ps)
      if (!same(p, all.at(p.id()))) h::fail("shine/perturbative", "%s was changed", p.type().name().c_str());
    std::map<std::string, int> got;
    for (auto &s : rec.shots) {
      if (s.in.size() != 1 || !all.count(s.in[0].id()) || !same(s.in[0], all.at(s.in[0].id()))) {
        h::fail("shine/incoming", "radiation of something that was not there");
        continue;
      }
      got[std::to_string(s.in[0].id()) + ": " + key(s.out)]++;
    }
    for (auto &a : all) {
      const ParticleData &p = a.second;
      const auto e = emissions(p);
      const Width w = widths(p);
      bool quiet = p.is_core() || w.n == 0;
      // only one that also decays otherwise shines on its way
      if (kind == 0) quiet |= int(e.size()) == w.n || p.type().is_stable() || dt == 0 || p.xsec_scaling_factor() == 0;
      if (kind == 2) quiet |= p.type().is_stable();
      if (quiet) continue;
      const double gamma = p.momentum().x0() / p.momentum().abs();
      const double factor = kind == 0 ? dt / gamma * p.xsec_scaling_factor() / hbarc : 1 / w.all;
      for (auto &m : e) {
        const std::string k = std::to_string(p.id()) + ": " + key(m.mode->particle_types());
        if (got[k] != 1) h::fail("shine/number", "%d emissions of %s instead of one", got[k], (p.type().name() + " " + k).c_str());
        got[k] = 0;
        for (auto &s : rec.shots)
          if (s.in[0].id() == p.id() && key(s.out) == key(m.mode->particle_types())) {
            judge(s, p, factor, m.width);
            if (s.density != 0) h::fail("shine/density", "density %g", s.density);
          }
        h::count("dileptons");
        h::evaluated(p.type().name() + key(m.mode->particle_types()) + std::to_string(kind) + std::to_string(int(p.momentum().abs() * 100)));
      }
    }
    for (auto &g : got)
      if (g.second > 0) h::fail("shine/number", "%d unexpected emissions %s", g.second, g.first.c_str());
  }
}
h::Reg r4("shine", shine);

/// distributions of one mode, and its width as the integral of the spectrum
void dalitz(h::Rng &rng) {
  load_dilepton();
  random::set_seed(int64_t(rng() >> 2));
  const DecayActionsFinderDilepton f;
  const int N = h::tier(3000, 5);
  for (const ParticleType &t : ParticleType::list_all()) {
    if (t.pdgcode().is_heavy_flavor()) continue;
    for (auto &mode : t.decay_modes().decay_mode_list()) {
      if (!leptonic(mode->particle_types())) continue;
      const bool three = mode->particle_types().size() == 3;
      const ParticleType *other = nullptr;
      double ml = 0, thr = 0;
      for (auto d : mode->particle_types()) {
        thr += d->mass();
        if (d->is_lepton())
          ml = d->mass();
        else
          other = std::addressof(*d);
      }
      if (t.is_stable() && !three) continue;
      for (int k = h::tier(2, 3); k > 0; k--) {
        const double G = t.width_at_pole();
        const double M = t.is_stable() || k == 1 ? t.mass() : h::uni(rng, std::max(t.min_mass_kinematic(), thr) + .02, t.mass() + 4 * std::min(G, .3));
        h::at("%s at %.9g -> %s", t.name().c_str(), M, key(mode->particle_types()).c_str());
        const double w = t.partial_width(M, mode.get());
        if (three) {
          // substitution m = exp(x): the spectrum falls like 1/m
          const double a = std::log(2 * ml), b = std::log(M - other->mass());
          const int n = 40000;
          double s = 0;
          for (int i = 0; i < n; i++) {
            const double m = std::exp(a + (b - a) * (i + .5) / n);
            s += spectrum(t, M, ml, m, *other) * m;
          }
          s *= (b - a) / n;
          h::sample("%s: width %.6g, integral of the spectrum %.6g", h::current, w, s);
          if (!t.is_stable() && !h::close(w, s, .02, .002 * G * mode->weight())) h::fail("dalitz/width", "width %.9g, integral of the spectrum %.9g", w, s);
          h::count("widths");
        }
        if (!(w > 0)) continue;
        ParticleData p = make(rng, t);
        p.set_4momentum(M, p.momentum().threevec());
        p.set_cross_section_scaling_factor(1.);
        Particles ps;
        ps.insert(p);
        Recorder rec("Dileptons");
        for (int i = 0; i < N; i++) f.shine_final(ps, &rec);
        std::vector<double> mass, c1, c2, f1;
        double avg = 0;
        for (auto &s : rec.shots) {
          if (key(s.out) != key(mode->particle_types())) continue;
          avg += s.weight;
          FourVector dil, lep;
          for (auto &q : s.out)
            if (q.type().is_lepton()) {
              dil += q.momentum();
              if (q.type().charge() < 0) lep = q.momentum();
            }
          const ThreeVector v = p.velocity();
          const FourVector d = dil.lorentz_boost(v), l = lep.lorentz_boost(v).lorentz_boost(d.velocity());
          mass.push_back(dil.abs());
          if (three) c1.push_back(d.threevec().x3() / d.threevec().abs());
          c2.push_back(l.threevec().x3() / l.threevec().abs());
          f1.push_back(std::atan2(l.threevec().x2(), l.threevec().x1()));
        }
        if (three) {
          h::follows("dalitz/mass", "dilepton masses", mass, h::flat(2 * ml, M - other->mass()), 1e-3);
          h::follows("dalitz/angle", "directions of the dilepton", c1, h::flat(-1, 1));
        }
        h::follows("dalitz/angle", "directions of the lepton", c2, h::flat(-1, 1));
        h::follows("dalitz/angle", "azimuths of the lepton", f1, h::flat(-M_PI, M_PI));
        h::evaluated(h::current);
        (void)avg;
      }
    }
  }
}
h::Reg r5("dalitz", dalitz);
}  // namespace
HARNESS_MAIN
